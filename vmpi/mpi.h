/* Virtual MPI: interface.  Ranks are fibers inside one process; see vmpi.hpp. */
#ifndef VMPI_MPI_H
#define VMPI_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

#define MPI_VERSION 3
#define MPI_SUBVERSION 1

typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef int MPI_Fint;

typedef struct vmpi_comm* MPI_Comm;
typedef struct vmpi_group* MPI_Group;
typedef struct vmpi_datatype* MPI_Datatype;
typedef struct vmpi_op* MPI_Op;
typedef struct vmpi_request* MPI_Request;
typedef struct vmpi_file* MPI_File;
typedef struct vmpi_info* MPI_Info;
typedef struct vmpi_errhandler* MPI_Errhandler;
typedef struct vmpi_message* MPI_Message;
typedef struct vmpi_win* MPI_Win;

typedef struct MPI_Status {
  int MPI_SOURCE;
  int MPI_TAG;
  int MPI_ERROR;
  int _cancelled;
  size_t _ucount; /* bytes */
} MPI_Status;

typedef void(MPI_User_function)(void*, void*, int*, MPI_Datatype*);
typedef void(MPI_Comm_errhandler_function)(MPI_Comm*, int*, ...);
typedef MPI_Comm_errhandler_function MPI_Comm_errhandler_fn;
typedef MPI_Comm_errhandler_function MPI_Handler_function;
typedef int(MPI_Comm_copy_attr_function)(MPI_Comm, int, void*, void*, void*, int*);
typedef int(MPI_Comm_delete_attr_function)(MPI_Comm, int, void*, void*);

extern struct vmpi_comm vmpi_comm_world, vmpi_comm_self;
extern struct vmpi_group vmpi_group_empty;
#define MPI_COMM_WORLD (&vmpi_comm_world)
#define MPI_COMM_SELF (&vmpi_comm_self)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_GROUP_NULL ((MPI_Group)0)
#define MPI_GROUP_EMPTY (&vmpi_group_empty)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_OP_NULL ((MPI_Op)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_FILE_NULL ((MPI_File)0)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_ERRHANDLER_NULL ((MPI_Errhandler)0)
#define MPI_MESSAGE_NULL ((MPI_Message)0)
#define MPI_WIN_NULL ((MPI_Win)0)

extern struct vmpi_errhandler vmpi_errors_return, vmpi_errors_fatal;
#define MPI_ERRORS_RETURN (&vmpi_errors_return)
#define MPI_ERRORS_ARE_FATAL (&vmpi_errors_fatal)

#define MPI_ANY_SOURCE (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-4)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_BOTTOM ((void*)0)
#define MPI_IN_PLACE ((void*)1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ERRCODES_IGNORE ((int*)0)
#define MPI_UNWEIGHTED ((int*)2)
#define MPI_KEYVAL_INVALID (-1)
#define MPI_TAG_UB 0

#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_MAX_INFO_KEY 36
#define MPI_MAX_INFO_VAL 256
#define MPI_MAX_LIBRARY_VERSION_STRING 256

#define MPI_SUCCESS 0
#define MPI_ERR_BUFFER 1
#define MPI_ERR_COUNT 2
#define MPI_ERR_TYPE 3
#define MPI_ERR_TAG 4
#define MPI_ERR_COMM 5
#define MPI_ERR_RANK 6
#define MPI_ERR_REQUEST 7
#define MPI_ERR_ROOT 8
#define MPI_ERR_GROUP 9
#define MPI_ERR_OP 10
#define MPI_ERR_TOPOLOGY 11
#define MPI_ERR_DIMS 12
#define MPI_ERR_ARG 13
#define MPI_ERR_UNKNOWN 14
#define MPI_ERR_TRUNCATE 15
#define MPI_ERR_OTHER 16
#define MPI_ERR_INTERN 17
#define MPI_ERR_IN_STATUS 18
#define MPI_ERR_PENDING 19
#define MPI_ERR_ACCESS 20
#define MPI_ERR_AMODE 21
#define MPI_ERR_BAD_FILE 22
#define MPI_ERR_FILE_EXISTS 25
#define MPI_ERR_FILE_IN_USE 26
#define MPI_ERR_FILE 27
#define MPI_ERR_IO 32
#define MPI_ERR_NO_SPACE 36
#define MPI_ERR_NO_SUCH_FILE 37
#define MPI_ERR_LASTCODE 92

#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3

#define MPI_CART 1
#define MPI_GRAPH 2
#define MPI_DIST_GRAPH 3
#define MPI_COMM_TYPE_SHARED 0

#define MPI_ORDER_C 0
#define MPI_ORDER_FORTRAN 1

#define MPI_COMBINER_NAMED 0
#define MPI_COMBINER_DUP 1
#define MPI_COMBINER_CONTIGUOUS 2
#define MPI_COMBINER_VECTOR 3
#define MPI_COMBINER_HVECTOR 5
#define MPI_COMBINER_INDEXED 7
#define MPI_COMBINER_HINDEXED 9
#define MPI_COMBINER_INDEXED_BLOCK 10
#define MPI_COMBINER_STRUCT 12
#define MPI_COMBINER_SUBARRAY 13
#define MPI_COMBINER_RESIZED 18
#define MPI_COMBINER_HINDEXED_BLOCK 19

#define MPI_MODE_CREATE 1
#define MPI_MODE_RDONLY 2
#define MPI_MODE_WRONLY 4
#define MPI_MODE_RDWR 8
#define MPI_MODE_DELETE_ON_CLOSE 16
#define MPI_MODE_UNIQUE_OPEN 32
#define MPI_MODE_EXCL 64
#define MPI_MODE_APPEND 128
#define MPI_MODE_SEQUENTIAL 256
#define MPI_SEEK_SET 600
#define MPI_SEEK_CUR 602
#define MPI_SEEK_END 604

/* basic datatypes */
#define VMPI_BASIC(X) extern struct vmpi_datatype vmpi_type_##X;
VMPI_BASIC(char) VMPI_BASIC(signed_char) VMPI_BASIC(unsigned_char) VMPI_BASIC(byte)
VMPI_BASIC(short) VMPI_BASIC(unsigned_short) VMPI_BASIC(int) VMPI_BASIC(unsigned)
VMPI_BASIC(long) VMPI_BASIC(unsigned_long) VMPI_BASIC(long_long) VMPI_BASIC(unsigned_long_long)
VMPI_BASIC(float) VMPI_BASIC(double) VMPI_BASIC(long_double) VMPI_BASIC(c_bool)
VMPI_BASIC(c_float_complex) VMPI_BASIC(c_double_complex) VMPI_BASIC(packed)
VMPI_BASIC(double_int) VMPI_BASIC(float_int) VMPI_BASIC(2int) VMPI_BASIC(long_int)
#define MPI_CHAR (&vmpi_type_char)
#define MPI_SIGNED_CHAR (&vmpi_type_signed_char)
#define MPI_UNSIGNED_CHAR (&vmpi_type_unsigned_char)
#define MPI_BYTE (&vmpi_type_byte)
#define MPI_PACKED (&vmpi_type_packed)
#define MPI_SHORT (&vmpi_type_short)
#define MPI_UNSIGNED_SHORT (&vmpi_type_unsigned_short)
#define MPI_INT (&vmpi_type_int)
#define MPI_UNSIGNED (&vmpi_type_unsigned)
#define MPI_LONG (&vmpi_type_long)
#define MPI_UNSIGNED_LONG (&vmpi_type_unsigned_long)
#define MPI_LONG_LONG (&vmpi_type_long_long)
#define MPI_LONG_LONG_INT (&vmpi_type_long_long)
#define MPI_UNSIGNED_LONG_LONG (&vmpi_type_unsigned_long_long)
#define MPI_FLOAT (&vmpi_type_float)
#define MPI_DOUBLE (&vmpi_type_double)
#define MPI_LONG_DOUBLE (&vmpi_type_long_double)
#define MPI_C_BOOL (&vmpi_type_c_bool)
#define MPI_CXX_BOOL (&vmpi_type_c_bool)
#define MPI_C_FLOAT_COMPLEX (&vmpi_type_c_float_complex)
#define MPI_C_COMPLEX (&vmpi_type_c_float_complex)
#define MPI_COMPLEX (&vmpi_type_c_float_complex)
#define MPI_C_DOUBLE_COMPLEX (&vmpi_type_c_double_complex)
#define MPI_DOUBLE_COMPLEX (&vmpi_type_c_double_complex)
#define MPI_CXX_DOUBLE_COMPLEX (&vmpi_type_c_double_complex)
#define MPI_CXX_FLOAT_COMPLEX (&vmpi_type_c_float_complex)
#define MPI_INT8_T (&vmpi_type_signed_char)
#define MPI_UINT8_T (&vmpi_type_unsigned_char)
#define MPI_INT16_T (&vmpi_type_short)
#define MPI_UINT16_T (&vmpi_type_unsigned_short)
#define MPI_INT32_T (&vmpi_type_int)
#define MPI_UINT32_T (&vmpi_type_unsigned)
#define MPI_INT64_T (&vmpi_type_long)
#define MPI_UINT64_T (&vmpi_type_unsigned_long)
#define MPI_OFFSET (&vmpi_type_long_long)
#define MPI_AINT (&vmpi_type_long)
#define MPI_COUNT (&vmpi_type_long_long)
#define MPI_DOUBLE_INT (&vmpi_type_double_int)
#define MPI_FLOAT_INT (&vmpi_type_float_int)
#define MPI_2INT (&vmpi_type_2int)
#define MPI_LONG_INT (&vmpi_type_long_int)

#define VMPI_OP(X) extern struct vmpi_op vmpi_op_##X;
VMPI_OP(max) VMPI_OP(min) VMPI_OP(sum) VMPI_OP(prod) VMPI_OP(land) VMPI_OP(band) VMPI_OP(lor)
VMPI_OP(bor) VMPI_OP(lxor) VMPI_OP(bxor) VMPI_OP(maxloc) VMPI_OP(minloc) VMPI_OP(replace)
#define MPI_MAX (&vmpi_op_max)
#define MPI_MIN (&vmpi_op_min)
#define MPI_SUM (&vmpi_op_sum)
#define MPI_PROD (&vmpi_op_prod)
#define MPI_LAND (&vmpi_op_land)
#define MPI_BAND (&vmpi_op_band)
#define MPI_LOR (&vmpi_op_lor)
#define MPI_BOR (&vmpi_op_bor)
#define MPI_LXOR (&vmpi_op_lxor)
#define MPI_BXOR (&vmpi_op_bxor)
#define MPI_MAXLOC (&vmpi_op_maxloc)
#define MPI_MINLOC (&vmpi_op_minloc)
#define MPI_REPLACE (&vmpi_op_replace)

/* environment */
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Error_class(int, int*);
int MPI_Query_thread(int*);
int MPI_Is_thread_main(int*);
int MPI_Get_version(int*, int*);
int MPI_Get_library_version(char*, int*);
int MPI_Pcontrol(const int, ...);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void*);
int MPI_Free_mem(void*);

/* point to point */
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Ibsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int,
                 MPI_Comm, MPI_Status*);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message*, MPI_Status*);
int MPI_Mrecv(void*, int, MPI_Datatype, MPI_Message*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Get_elements(const MPI_Status*, MPI_Datatype, int*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Testsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Request_get_status(MPI_Request, int*, MPI_Status*);
int MPI_Cancel(MPI_Request*);
int MPI_Test_cancelled(const MPI_Status*, int*);
int MPI_Send_init(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv_init(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Start(MPI_Request*);
int MPI_Startall(int, MPI_Request*);
int MPI_Buffer_attach(void*, int);
int MPI_Buffer_detach(void*, int*);

/* collectives */
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int,
                MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int,
                 MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype,
                   MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*,
                  MPI_Datatype, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter(const void*, void*, const int*, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter_block(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Igather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm,
                MPI_Request*);
int MPI_Igatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int,
                 MPI_Comm, MPI_Request*);
int MPI_Iscatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm,
                 MPI_Request*);
int MPI_Iallgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm,
                   MPI_Request*);
int MPI_Iallgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype,
                    MPI_Comm, MPI_Request*);
int MPI_Ireduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request*);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Iexscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Iscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Reduce_local(const void*, void*, int, MPI_Datatype, MPI_Op);
int MPI_Op_create(MPI_User_function*, int, MPI_Op*);
int MPI_Op_free(MPI_Op*);
int MPI_Op_commutative(MPI_Op, int*);

/* communicators and groups */
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm*);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_disconnect(MPI_Comm*);
int MPI_Comm_group(MPI_Comm, MPI_Group*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Comm_test_inter(MPI_Comm, int*);
int MPI_Comm_remote_size(MPI_Comm, int*);
int MPI_Comm_set_name(MPI_Comm, const char*);
int MPI_Comm_get_name(MPI_Comm, char*, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler*);
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*, MPI_Errhandler*);
int MPI_Errhandler_free(MPI_Errhandler*);
int MPI_Comm_get_attr(MPI_Comm, int, void*, int*);
int MPI_Attr_get(MPI_Comm, int, void*, int*);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
int MPI_Group_size(MPI_Group, int*);
int MPI_Group_rank(MPI_Group, int*);
int MPI_Group_incl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_excl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_union(MPI_Group, MPI_Group, MPI_Group*);
int MPI_Group_intersection(MPI_Group, MPI_Group, MPI_Group*);
int MPI_Group_difference(MPI_Group, MPI_Group, MPI_Group*);
int MPI_Group_range_incl(MPI_Group, int, int[][3], MPI_Group*);
int MPI_Group_translate_ranks(MPI_Group, int, const int*, MPI_Group, int*);
int MPI_Group_compare(MPI_Group, MPI_Group, int*);
int MPI_Group_free(MPI_Group*);

/* topologies */
int MPI_Cart_create(MPI_Comm, int, const int*, const int*, int, MPI_Comm*);
int MPI_Cart_sub(MPI_Comm, const int*, MPI_Comm*);
int MPI_Cart_get(MPI_Comm, int, int*, int*, int*);
int MPI_Cart_rank(MPI_Comm, const int*, int*);
int MPI_Cart_coords(MPI_Comm, int, int, int*);
int MPI_Cart_shift(MPI_Comm, int, int, int*, int*);
int MPI_Cartdim_get(MPI_Comm, int*);
int MPI_Dims_create(int, int, int*);
int MPI_Topo_test(MPI_Comm, int*);

/* datatypes */
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype*);
int MPI_Type_indexed(int, const int*, const int*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_hindexed(int, const int*, const MPI_Aint*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_indexed_block(int, int, const int*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_hindexed_block(int, int, const MPI_Aint*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_struct(int, const int*, const MPI_Aint*, const MPI_Datatype*, MPI_Datatype*);
int MPI_Type_create_subarray(int, const int*, const int*, const int*, int, MPI_Datatype,
                             MPI_Datatype*);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype*);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Type_size_x(MPI_Datatype, MPI_Count*);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Type_get_true_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Type_get_envelope(MPI_Datatype, int*, int*, int*, int*);
int MPI_Type_get_contents(MPI_Datatype, int, int, int, int*, MPI_Aint*, MPI_Datatype*);
int MPI_Type_get_name(MPI_Datatype, char*, int*);
int MPI_Type_set_name(MPI_Datatype, const char*);
int MPI_Get_address(const void*, MPI_Aint*);
MPI_Aint MPI_Aint_add(MPI_Aint, MPI_Aint);
MPI_Aint MPI_Aint_diff(MPI_Aint, MPI_Aint);
int MPI_Pack(const void*, int, MPI_Datatype, void*, int, int*, MPI_Comm);
int MPI_Unpack(const void*, int, int*, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Pack_size(int, MPI_Datatype, MPI_Comm, int*);

/* info */
int MPI_Info_create(MPI_Info*);
int MPI_Info_set(MPI_Info, const char*, const char*);
int MPI_Info_get(MPI_Info, const char*, int, char*, int*);
int MPI_Info_delete(MPI_Info, const char*);
int MPI_Info_dup(MPI_Info, MPI_Info*);
int MPI_Info_free(MPI_Info*);

/* files */
int MPI_File_open(MPI_Comm, const char*, int, MPI_Info, MPI_File*);
int MPI_File_close(MPI_File*);
int MPI_File_delete(const char*, MPI_Info);
int MPI_File_get_size(MPI_File, MPI_Offset*);
int MPI_File_set_size(MPI_File, MPI_Offset);
int MPI_File_preallocate(MPI_File, MPI_Offset);
int MPI_File_set_view(MPI_File, MPI_Offset, MPI_Datatype, MPI_Datatype, const char*, MPI_Info);
int MPI_File_seek(MPI_File, MPI_Offset, int);
int MPI_File_get_position(MPI_File, MPI_Offset*);
int MPI_File_sync(MPI_File);
int MPI_File_set_atomicity(MPI_File, int);
int MPI_File_write(MPI_File, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write_all(MPI_File, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write_at(MPI_File, MPI_Offset, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write_at_all(MPI_File, MPI_Offset, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read(MPI_File, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read_all(MPI_File, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read_at(MPI_File, MPI_Offset, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read_at_all(MPI_File, MPI_Offset, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_iwrite_at(MPI_File, MPI_Offset, const void*, int, MPI_Datatype, MPI_Request*);
int MPI_File_iread_at(MPI_File, MPI_Offset, void*, int, MPI_Datatype, MPI_Request*);
int MPI_File_set_errhandler(MPI_File, MPI_Errhandler);

#ifdef __cplusplus
}
#endif
#endif

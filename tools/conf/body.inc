// Observations of one rank, as text; the same code runs on the installed MPI and on libvmpi.
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <complex>
#include <algorithm>
typedef std::vector<int> V;
static void say(std::string& o, const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); o += b; }
static void sayv(std::string& o, const char* n, const V& v) { say(o, "%s:", n); for (int x : v) say(o, " %d", x); say(o, "\n"); }
static void userOp(void* in, void* io, int* n, MPI_Datatype*) { int* a = (int*)in; int* b = (int*)io; for (int i = 0; i < *n; ++i) b[i] = b[i] * 3 + a[i] * 3 - (a[i] + b[i]) * 2; }
static void conf(std::string& o, const std::string& dir) {
  int r, n; MPI_Comm W = MPI_COMM_WORLD; MPI_Comm_rank(W, &r); MPI_Comm_size(W, &n);
  // collectives
  { V a{r, -r, r * r}, b(3, -7); MPI_Allreduce(a.data(), b.data(), 3, MPI_INT, MPI_SUM, W); sayv(o, "allreduce sum", b); MPI_Allreduce(a.data(), b.data(), 3, MPI_INT, MPI_MAX, W); sayv(o, "max", b); MPI_Allreduce(a.data(), b.data(), 3, MPI_INT, MPI_MIN, W); sayv(o, "min", b);
    b = a; MPI_Allreduce(MPI_IN_PLACE, b.data(), 3, MPI_INT, MPI_SUM, W); sayv(o, "inplace", b);
    V l{r == 0, 1, r != n - 1}; MPI_Allreduce(MPI_IN_PLACE, l.data(), 3, MPI_INT, MPI_LAND, W); sayv(o, "land", l); unsigned long m = 1ul << (r + 33), mm = 0; MPI_Allreduce(&m, &mm, 1, MPI_UNSIGNED_LONG, MPI_BOR, W); say(o, "bor %lx\n", mm);
    for (int root = 0; root < n; ++root) { V c(3, -1); if (r == root) { c = a; MPI_Reduce(MPI_IN_PLACE, c.data(), 3, MPI_INT, MPI_SUM, root, W); } else MPI_Reduce(a.data(), nullptr, 3, MPI_INT, MPI_SUM, root, W); sayv(o, "reduce", c); V d(2, r == root ? 40 + r : 0); MPI_Bcast(d.data(), 2, MPI_INT, root, W); sayv(o, "bcast", d);
      V g(r == root ? 2 * n : 0, -1); V s{r, 10 * r}; MPI_Gather(s.data(), 2, MPI_INT, g.data(), 2, MPI_INT, root, W); sayv(o, "gather", g);
      V cnt(n), dis(n); int t = 0; for (int i = 0; i < n; ++i) { cnt[i] = i % 3; dis[i] = t; t += cnt[i] + 1; } V gv(r == root ? t : 0, -9), sv(cnt[r], 100 + r); MPI_Gatherv(sv.data(), cnt[r], MPI_INT, gv.data(), cnt.data(), dis.data(), MPI_INT, root, W); sayv(o, "gatherv", gv);
      V src(r == root ? 2 * n : 0); for (size_t i = 0; i < src.size(); ++i) src[i] = (int)i * 5; V dst(2, -1); MPI_Scatter(src.data(), 2, MPI_INT, dst.data(), 2, MPI_INT, root, W); sayv(o, "scatter", dst);
      V big(t); for (int i = 0; i < t; ++i) big[i] = 1000 + i; V part(3, -1); MPI_Scatterv(big.data(), cnt.data(), dis.data(), MPI_INT, part.data(), cnt[r], MPI_INT, root, W); sayv(o, "scatterv", part); }
    V e(2, -5), s{r + 1, 2}; MPI_Exscan(s.data(), e.data(), 2, MPI_INT, MPI_SUM, W); if (!r) e = {0, 0}; sayv(o, "exscan", e); MPI_Scan(s.data(), e.data(), 2, MPI_INT, MPI_PROD, W); sayv(o, "scan", e);
    V ag(n, -1); MPI_Allgather(&r, 1, MPI_INT, ag.data(), 1, MPI_INT, W); sayv(o, "allgather", ag); V at(n), ar(n); for (int i = 0; i < n; ++i) at[i] = r * 10 + i; MPI_Alltoall(at.data(), 1, MPI_INT, ar.data(), 1, MPI_INT, W); sayv(o, "alltoall", ar);
    V cnt(n), dis(n); int t = 0; for (int i = 0; i < n; ++i) { cnt[i] = (i + 1) % 3; dis[i] = t; t += cnt[i]; } V av(t, -1), sv(cnt[r], r); MPI_Allgatherv(sv.data(), cnt[r], MPI_INT, av.data(), cnt.data(), dis.data(), MPI_INT, W); sayv(o, "allgatherv", av);
    std::complex<double> z(r, 1), zz; MPI_Allreduce(&z, &zz, 1, MPI_CXX_DOUBLE_COMPLEX, MPI_SUM, W); say(o, "complex %g %g\n", zz.real(), zz.imag()); double x = r * .5, y; MPI_Allreduce(&x, &y, 1, MPI_DOUBLE, MPI_SUM, W); say(o, "double %g\n", y);
    MPI_Op op; MPI_Op_create(userOp, 1, &op); int q = r + 2, u = 0; MPI_Allreduce(&q, &u, 1, MPI_INT, op, W); say(o, "userop %d\n", u); MPI_Op_free(&op); say(o, "opnull %d\n", op == MPI_OP_NULL); }
  // non-blocking collectives
  { std::vector<MPI_Request> q(4); int a = r, b = 0, c = r == n - 1 ? 77 : 0; MPI_Iallreduce(&a, &b, 1, MPI_INT, MPI_SUM, W, &q[0]); MPI_Ibcast(&c, 1, MPI_INT, n - 1, W, &q[1]); MPI_Ibarrier(W, &q[2]); int d = 0; MPI_Ireduce(&a, &d, 1, MPI_INT, MPI_MAX, 0, W, &q[3]); MPI_Waitall(4, q.data(), MPI_STATUSES_IGNORE); say(o, "nbc %d %d %d null %d\n", b, c, r ? 0 : d, q[0] == MPI_REQUEST_NULL); }
  // communicators
  { MPI_Comm s; MPI_Comm_split(W, r % 2, -r, &s); int a, b; MPI_Comm_rank(s, &a); MPI_Comm_size(s, &b); say(o, "split %d %d\n", a, b); int cmp; MPI_Comm_compare(s, W, &cmp); say(o, "compare %d\n", cmp == MPI_UNEQUAL || n == 1); MPI_Comm t; MPI_Comm_split(s, r == 0 ? MPI_UNDEFINED : 1, 0, &t); say(o, "undefined %d\n", t == MPI_COMM_NULL); if (t != MPI_COMM_NULL) MPI_Comm_free(&t); MPI_Comm_free(&s); say(o, "freed %d\n", s == MPI_COMM_NULL);
    MPI_Comm_split(W, 0, 5, &s); MPI_Comm_rank(s, &a); say(o, "equal keys %d\n", a); MPI_Comm_compare(s, W, &cmp); say(o, "congruent %d\n", cmp == MPI_CONGRUENT); MPI_Comm_free(&s);
    MPI_Group g, h; MPI_Comm_group(W, &g); V in; for (int i = n - 1; i >= 0; i -= 2) in.push_back(i); MPI_Group_incl(g, (int)in.size(), in.data(), &h); MPI_Group_rank(h, &a); MPI_Group_size(h, &b); say(o, "group %d %d undef %d\n", a == MPI_UNDEFINED ? -1 : a, b, a == MPI_UNDEFINED); MPI_Comm_create(W, h, &s); say(o, "create null %d\n", s == MPI_COMM_NULL); if (s != MPI_COMM_NULL) { MPI_Comm_rank(s, &a); MPI_Comm_size(s, &b); say(o, "create %d %d\n", a, b); int v = r; MPI_Bcast(&v, 1, MPI_INT, 0, s); say(o, "create bcast %d\n", v); MPI_Comm_free(&s); }
    V tr(in.size()), id; for (size_t i = 0; i < in.size(); ++i) id.push_back((int)i); MPI_Group_translate_ranks(h, (int)id.size(), id.data(), g, tr.data()); sayv(o, "translate", tr); MPI_Group_excl(g, (int)in.size(), in.data(), &h); MPI_Group_size(h, &b); say(o, "excl %d\n", b); MPI_Group_free(&g); 
    MPI_Comm d; MPI_Comm_dup(W, &d); MPI_Comm_compare(d, W, &cmp); say(o, "dup %d\n", cmp == MPI_CONGRUENT); int st; MPI_Topo_test(d, &st); say(o, "topo %d\n", st == MPI_UNDEFINED); MPI_Comm_free(&d); }
  // cartesian topologies
  { std::vector<V> shapes; for (int a = 1; a <= n; ++a) for (int b = 1; a * b <= n; ++b) for (int c = 1; a * b * c <= n; ++c) shapes.push_back({a, b, c});
    for (auto& s : shapes) for (int per = 0; per < 8; per += 3) { int p[3] = {per & 1, per >> 1 & 1, per >> 2 & 1}; MPI_Comm c; MPI_Cart_create(W, 3, s.data(), p, 0, &c); say(o, "cart %d%d%d/%d null %d\n", s[0], s[1], s[2], per, c == MPI_COMM_NULL); if (c == MPI_COMM_NULL) continue;
      int k; MPI_Comm_rank(c, &k); int co[3], di[3], pe[3]; MPI_Cart_get(c, 3, di, pe, co); say(o, " rank %d at %d %d %d dims %d %d %d per %d %d %d\n", k, co[0], co[1], co[2], di[0], di[1], di[2], !!pe[0], !!pe[1], !!pe[2]); int sz; MPI_Comm_size(c, &sz); for (int i = 0; i < sz; ++i) { int x[3]; MPI_Cart_coords(c, i, 3, x); int back; MPI_Cart_rank(c, x, &back); say(o, " %d>%d%d%d>%d", i, x[0], x[1], x[2], back); } say(o, "\n"); for (int d = 0; d < 3; ++d) for (int dis = -1; dis <= 2; ++dis) { int a, b; MPI_Cart_shift(c, d, dis, &a, &b); say(o, " s%d,%d:%d,%d", d, dis, a == MPI_PROC_NULL ? -2 : a, b == MPI_PROC_NULL ? -2 : b); } say(o, "\n"); int nd, st; MPI_Cartdim_get(c, &nd); MPI_Topo_test(c, &st); say(o, " dim %d cart %d\n", nd, st == MPI_CART); MPI_Comm_free(&c); } }
  // point to point
  { int nx = (r + 1) % n, pv = (r + n - 1) % n; int a = r, b = -1; MPI_Status st; MPI_Sendrecv(&a, 1, MPI_INT, nx, 3, &b, 1, MPI_INT, pv, 3, W, &st); say(o, "sendrecv %d from %d tag %d\n", b, st.MPI_SOURCE, st.MPI_TAG);
    MPI_Request q[2]; V big(5, r), in(9, -1); MPI_Irecv(in.data(), 9, MPI_INT, pv, MPI_ANY_TAG, W, &q[0]); MPI_Isend(big.data(), 5, MPI_INT, nx, 11, W, &q[1]); MPI_Status ss[2]; MPI_Waitall(2, q, ss); int cnt; MPI_Get_count(&ss[0], MPI_INT, &cnt); sayv(o, "irecv", in); say(o, " count %d tag %d src %d\n", cnt, ss[0].MPI_TAG, ss[0].MPI_SOURCE);
    // order of messages of one sender, tags overtaking
    if (r == 0) { for (int i = 1; i < n; ++i) { int x = 1, y = 2, z = 3; MPI_Send(&x, 1, MPI_INT, i, 5, W); MPI_Send(&y, 1, MPI_INT, i, 6, W); MPI_Send(&z, 1, MPI_INT, i, 5, W); } } else { int x, y, z; MPI_Recv(&y, 1, MPI_INT, 0, 6, W, MPI_STATUS_IGNORE); MPI_Recv(&x, 1, MPI_INT, 0, MPI_ANY_TAG, W, &st); MPI_Recv(&z, 1, MPI_INT, MPI_ANY_SOURCE, 5, W, MPI_STATUS_IGNORE); say(o, "order %d %d %d tag %d\n", x, y, z, st.MPI_TAG); }
    if (r == 0) { for (int i = 1; i < n; ++i) { V m(i, i); MPI_Send(m.data(), i, MPI_INT, i, 7, W); } } else { MPI_Probe(0, 7, W, &st); MPI_Get_count(&st, MPI_INT, &cnt); V m(cnt, 0); MPI_Recv(m.data(), cnt, MPI_INT, 0, 7, W, MPI_STATUS_IGNORE); sayv(o, "probe", m); MPI_Get_count(&st, MPI_BYTE, &cnt); say(o, " bytes %d\n", cnt); }
    int fl = 9; MPI_Iprobe(MPI_ANY_SOURCE, 99, W, &fl, MPI_STATUS_IGNORE); say(o, "iprobe %d\n", fl); MPI_Request nul = MPI_REQUEST_NULL; fl = 0; MPI_Test(&nul, &fl, &st); MPI_Get_count(&st, MPI_INT, &cnt); say(o, "test null %d count %d src %d\n", fl, cnt, st.MPI_SOURCE == MPI_ANY_SOURCE); MPI_Wait(&nul, MPI_STATUS_IGNORE);
    int dummy = 4; MPI_Send(&dummy, 1, MPI_INT, MPI_PROC_NULL, 1, W); MPI_Recv(&dummy, 1, MPI_INT, MPI_PROC_NULL, 1, W, &st); MPI_Get_count(&st, MPI_INT, &cnt); say(o, "procnull %d count %d src %d\n", dummy, cnt, st.MPI_SOURCE == MPI_PROC_NULL);
    MPI_Request rq[3]; int v[3]; for (int i = 0; i < 3; ++i) MPI_Irecv(&v[i], 1, MPI_INT, r, 20 + i, W, &rq[i]); for (int i = 2; i >= 0; --i) { int x = 50 + i; MPI_Send(&x, 1, MPI_INT, r, 20 + i, W); } V ix; for (int i = 0; i < 3; ++i) { int k; MPI_Waitany(3, rq, &k, MPI_STATUS_IGNORE); ix.push_back(k); } std::sort(ix.begin(), ix.end()); sayv(o, "waitany", ix); int k; MPI_Waitany(3, rq, &k, MPI_STATUS_IGNORE); say(o, " undef %d\n", k == MPI_UNDEFINED); fl = 0; MPI_Testall(3, rq, &fl, MPI_STATUSES_IGNORE); say(o, " testall %d\n", fl);
    MPI_Irecv(&v[0], 1, MPI_INT, r, 30, W, &rq[0]); MPI_Test(&rq[0], &fl, MPI_STATUS_IGNORE); say(o, "test early %d\n", fl); int x = 8; MPI_Isend(&x, 1, MPI_INT, r, 30, W, &rq[1]); MPI_Request_free(&rq[1]); say(o, "req free %d\n", rq[1] == MPI_REQUEST_NULL); MPI_Wait(&rq[0], MPI_STATUS_IGNORE); say(o, "self %d\n", v[0]); }
  // datatypes
  { V data(24); for (int i = 0; i < 24; ++i) data[i] = r * 100 + i; auto roundtrip = [&](const char* name, MPI_Datatype t, int cnt, int els) { MPI_Type_commit(&t); int sz; MPI_Aint lb, ex, tl, te; MPI_Type_size(t, &sz); MPI_Type_get_extent(t, &lb, &ex); MPI_Type_get_true_extent(t, &tl, &te); say(o, "%s size %d lb %ld ex %ld tl %ld te %ld\n", name, sz, (long)lb, (long)ex, (long)tl, (long)te); V flat(24, -1), back(24, -1); MPI_Request q; MPI_Irecv(flat.data(), 24, MPI_INT, r, 1, W, &q); MPI_Send(data.data(), cnt, t, r, 1, W); MPI_Status st; MPI_Wait(&q, &st); int c; MPI_Get_count(&st, MPI_INT, &c); say(o, " elements %d expected %d\n", c, els); sayv(o, " flat", flat); MPI_Irecv(back.data(), cnt, t, r, 2, W, &q); MPI_Send(flat.data(), els, MPI_INT, r, 2, W); MPI_Wait(&q, &st); MPI_Get_count(&st, t, &c); say(o, " count %d\n", c); sayv(o, " back", back); V bc = r == 0 ? data : V(24, -1); MPI_Bcast(bc.data(), cnt, t, 0, W); sayv(o, " bcast", bc); int ni, na, nd, comb; MPI_Type_get_envelope(t, &ni, &na, &nd, &comb); say(o, " envelope %d %d %d\n", ni, na, nd); MPI_Type_free(&t); say(o, " null %d\n", t == MPI_DATATYPE_NULL); };
    MPI_Datatype t; MPI_Type_contiguous(5, MPI_INT, &t); roundtrip("contiguous", t, 2, 10); MPI_Type_vector(3, 2, 4, MPI_INT, &t); roundtrip("vector", t, 2, 12); int bl[3] = {1, 3, 2}, ds[3] = {7, 0, 4}; MPI_Type_indexed(3, bl, ds, MPI_INT, &t); roundtrip("indexed", t, 2, 12); MPI_Aint hd[3] = {4 * 9, 0, 4 * 4}; MPI_Type_create_hindexed_block(3, 2, hd, MPI_INT, &t); roundtrip("hindexed_block", t, 2, 12); 
    for (int ord = 0; ord < 2; ++ord) { int sz[3] = {2, 3, 4}, su[3] = {1, 2, 3}, sa[3] = {1, 0, 1}; MPI_Type_create_subarray(3, sz, su, sa, ord ? MPI_ORDER_FORTRAN : MPI_ORDER_C, MPI_INT, &t); roundtrip(ord ? "subarray F" : "subarray C", t, 1, 6); }
    struct S { char c; double d; int i; } s[2] = {{'a', .5, 3}, {'b', .25, 4}}, q[2]; memset(q, 0, sizeof q); int b3[3] = {1, 1, 1}; MPI_Aint d3[3] = {offsetof(S, c), offsetof(S, d), offsetof(S, i)}; MPI_Datatype t3[3] = {MPI_CHAR, MPI_DOUBLE, MPI_INT}; MPI_Type_create_struct(3, b3, d3, t3, &t); MPI_Datatype rs; MPI_Type_create_resized(t, 0, sizeof(S), &rs); MPI_Type_commit(&rs); MPI_Sendrecv(s, 2, rs, r, 0, q, 2, rs, r, 0, W, MPI_STATUS_IGNORE); say(o, "struct %c %g %d %c %g %d\n", q[0].c, q[0].d, q[0].i, q[1].c, q[1].d, q[1].i); MPI_Type_free(&rs); MPI_Type_free(&t);
    MPI_Aint a1, a2; MPI_Get_address(&data[0], &a1); MPI_Get_address(&data[5], &a2); say(o, "aint %ld\n", (long)MPI_Aint_diff(a2, a1)); int sz; MPI_Type_size(MPI_CXX_DOUBLE_COMPLEX, &sz); say(o, "sizes %d", sz); MPI_Type_size(MPI_UNSIGNED_LONG, &sz); say(o, " %d", sz); MPI_Type_size(MPI_UNSIGNED, &sz); say(o, " %d\n", sz); }
  // files
  { std::string f = dir + "/f"; MPI_File fh; int e; auto cls = [](int e) { int c = 0; MPI_Error_class(e, &c); return c; };
    e = MPI_File_open(W, (dir + "/missing").c_str(), MPI_MODE_RDONLY, MPI_INFO_NULL, &fh); say(o, "open missing ok %d nosuch %d\n", e == MPI_SUCCESS, cls(e) == MPI_ERR_NO_SUCH_FILE);
    MPI_Info info; MPI_Info_create(&info); MPI_Info_set(info, "romio_cb_write", "enable"); e = MPI_File_open(W, f.c_str(), MPI_MODE_CREATE | MPI_MODE_EXCL | MPI_MODE_WRONLY, info, &fh); say(o, "create %d\n", e == MPI_SUCCESS); MPI_Status st; int v[2] = {r, r + 100}; int c; e = MPI_File_write_at_all(fh, (MPI_Offset)(n - 1 - r) * 8, v, 2, MPI_INT, &st); MPI_Get_count(&st, MPI_INT, &c); say(o, "write %d count %d\n", e == MPI_SUCCESS, c); MPI_File_close(&fh); say(o, "close null %d\n", fh == MPI_FILE_NULL); MPI_Info_free(&info);
    MPI_Barrier(W); e = MPI_File_open(W, f.c_str(), MPI_MODE_CREATE | MPI_MODE_EXCL | MPI_MODE_WRONLY, MPI_INFO_NULL, &fh); say(o, "excl again ok %d exists %d\n", e == MPI_SUCCESS, cls(e) == MPI_ERR_FILE_EXISTS);
    e = MPI_File_open(W, f.c_str(), MPI_MODE_RDONLY, MPI_INFO_NULL, &fh); MPI_Offset sz; MPI_File_get_size(fh, &sz); V all(2 * n + 3, -1); e = MPI_File_read_at(fh, 0, all.data(), 2 * n + 3, MPI_INT, &st); MPI_Get_count(&st, MPI_INT, &c); say(o, "size %ld read ok %d count %d\n", (long)sz, e == MPI_SUCCESS, c); sayv(o, " content", all); int w[2] = {-1, -1}; e = MPI_File_read_at_all(fh, (MPI_Offset)r * 8 + 4, w, r == n - 1 ? 1 : 2, MPI_INT, &st); MPI_Get_count(&st, MPI_INT, &c); say(o, "read_at_all %d %d count %d\n", w[0], w[1], c); MPI_File_close(&fh);
    // view with subarray, collective write
    std::string g = dir + "/g"; e = MPI_File_open(W, g.c_str(), MPI_MODE_CREATE | MPI_MODE_WRONLY, MPI_INFO_NULL, &fh); int gs[2] = {3, 2 * n}, ls[2] = {3, 2}, lo[2] = {0, 2 * r}; MPI_Datatype t; MPI_Type_create_subarray(2, gs, ls, lo, MPI_ORDER_C, MPI_INT, &t); MPI_Type_commit(&t); MPI_File_set_view(fh, 8, MPI_INT, t, "native", MPI_INFO_NULL); V l(6); for (int i = 0; i < 6; ++i) l[i] = r * 10 + i; e = MPI_File_write_all(fh, l.data(), 6, MPI_INT, &st); MPI_Get_count(&st, MPI_INT, &c); say(o, "view write %d count %d\n", e == MPI_SUCCESS, c); MPI_File_close(&fh); MPI_Type_free(&t); MPI_Barrier(W);
    e = MPI_File_open(MPI_COMM_SELF, g.c_str(), MPI_MODE_RDONLY, MPI_INFO_NULL, &fh); MPI_File_get_size(fh, &sz); V ga((int)sz / 4 - 2, -1); MPI_File_seek(fh, 8, MPI_SEEK_SET); MPI_File_read(fh, ga.data(), (int)ga.size(), MPI_INT, &st); sayv(o, "view content", ga); MPI_Offset pos; MPI_File_get_position(fh, &pos); say(o, "position %ld\n", (long)pos); MPI_File_close(&fh);
    e = MPI_File_open(W, f.c_str(), MPI_MODE_CREATE | MPI_MODE_WRONLY, MPI_INFO_NULL, &fh); MPI_File_get_size(fh, &sz); say(o, "reopen size %ld\n", (long)sz); MPI_Barrier(W); MPI_File_set_size(fh, 12); MPI_File_get_size(fh, &sz); say(o, "set size %ld\n", (long)sz); MPI_File_close(&fh); MPI_Barrier(W);
    if (!r) { e = MPI_File_delete(f.c_str(), MPI_INFO_NULL); say(o, "delete %d\n", e == MPI_SUCCESS); e = MPI_File_delete(f.c_str(), MPI_INFO_NULL); say(o, "delete again ok %d nosuch %d\n", e == MPI_SUCCESS, cls(e) == MPI_ERR_NO_SUCH_FILE); MPI_File_delete(g.c_str(), MPI_INFO_NULL); } MPI_Barrier(W); }
  { int d[3] = {0, 0, 0}; MPI_Dims_create(n, 3, d); say(o, "dims %d %d %d\n", d[0], d[1], d[2]); int fl; MPI_Initialized(&fl); say(o, "init %d\n", fl); }
}


  // --- full grids: plot files for every decomposition
  {
    vector<std::pair<IV, IV>> g = {{{1}, {2}}, {{3}, {2}}, {{3}, {1}}, {{2}, {0}}, {{2, 2}, {2, 2}}, {{1, 3}, {2, 1}}, {{3, 1}, {0, 2}}, {{2, 1, 2}, {2, 2, 2}}, {{1, 2, 1}, {1, 2, 2}}};
    if (T) { g.push_back({{3, 3}, {2, 1}}); g.push_back({{2, 2, 2}, {0, 1, 2}}); g.push_back({{1, 2, 1, 1}, {2, 2, 2, 2}}); }
    g.push_back({{1, 1, 1, 1, 1}, {2, 2, 2, 2, 2}}); g.push_back({{1, 1, 1, 1, 1, 1, 1}, {2, 1, 1, 1, 1, 1, 2}});
    for (auto& lb : g) {
      IV l = lb.first, b = lb.second, n = npoints(l, b), one(l.size(), 1), hi(l.size()); for (size_t d = 0; d < l.size(); ++d) hi[d] = l.size() > 3 ? (d == 0 || d == l.size() - 1 ? 2 : 1) : std::min(n[d], 3);
      for (auto& p : box(one, hi)) if (prod(p) <= 6) h.add("plot " + hz::vs(l) + hz::vs(b) + " procs " + hz::vs(p), [=](hz::Ctx& c) {
        auto dl = decList(n, p, T ? 400 : 60); auto first = dl[0];
        for (auto& dec : dl) {
          for (int ty = 0; ty < 2 && !c.failed; ++ty) {
            vmpi::Options o; o.nranks = (int)prod(p); if (o.nranks <= 2 && ty == 0) { o.preemptAt = vmpi::PT_FILE; o.bound = 1; }
            std::string what; for (auto& x : dec) what += hz::vs(x);
            c.check(hz::fmt("%s decomposition %s", ty ? "complex" : "double", what.c_str()), o, [=](int rank) {
              MPI_Comm cm = cart(MPI_COMM_WORLD, p, b);
              auto doit = [&](auto zero) {
                typedef decltype(zero) E;
                for (const char* s : {"p.raw", "p.raw_header", "p.bin", "p.vtk"}) if (rank == 0) { unlink(s); if (dec == first) put(s, std::string(4096 + 16 * prod(n), 'z')); }   // files of an earlier, finer run
                MPI_Barrier(cm);
                vector<cg::IndexVector> dc = decOf(dec);
                cg::OwningDistributedFullGrid<E> f((cg::DimType)l.size(), lv(l), cm, u8(b), p, false, dc);
                for (long i = 0; i < f.getNrLocalElements(); ++i) { cg::IndexVector gi(l.size()); cg::IndexVector li(l.size()); f.getLocalVectorIndex((cg::IndexType)i, li); f.getGlobalVectorIndex(li, gi); IV x(gi.begin(), gi.end()); f.getData()[i] = value<E>(lin(x, n)); }
                f.writePlotFile("p.raw"); f.writePlotFile("p.bin"); if (l.size() < 4 && sizeof(E) == 8) f.writePlotFileVTK("p.vtk");
                MPI_Barrier(cm);
                if (rank == 0) {
                  std::string want = fileOf<E>(prod(n)), raw = slurp("p.raw"), bin = slurp("p.bin"), hd = slurp("p.raw_header");
                  REQ(raw == want, "raw plot file does not hold the nodal values in order");
                  size_t off = (1 + l.size()) * sizeof(int);
                  REQ(bin.size() == off + want.size() && bin.substr(off) == want, "plot file does not hold the nodal values behind its header");
                  int dm0; memcpy(&dm0, bin.data(), 4); REQ(dm0 == (int)l.size(), "plot file header holds dimension %d", dm0);
                  for (size_t d = 0; d < l.size(); ++d) { int s; memcpy(&s, bin.data() + 4 + 4 * d, 4); REQ(s == n[d], "plot file header holds %d points in dimension %d instead of %d", s, (int)d, n[d]); }
                  std::istringstream is(hd); std::string w1; int v; is >> w1 >> v; REQ(w1 == "dimensionality" && v == (int)l.size(), "header of the raw file: dimension"); is >> w1; for (int x : n) { is >> v; REQ(v == x, "header of the raw file: extents"); } is >> w1 >> w1 >> w1 >> v; REQ(v == (int)sizeof(E), "header of the raw file: size of the data type");
                  if (l.size() < 4 && sizeof(E) == 8) { std::string vtk = slurp("p.vtk"), key = "LOOKUP_TABLE default\n"; size_t at = vtk.find(key); REQ(at != std::string::npos && vtk.substr(at + key.size()) == want, "VTK file does not hold the nodal values"); std::string dm = "DIMENSIONS"; for (int d = 0; d < 3; ++d) dm += " " + std::to_string(d < (int)l.size() ? n[d] : 1); REQ(vtk.find(dm + "\n") != std::string::npos && vtk.find(hz::fmt("POINT_DATA %ld\n", prod(n))) != std::string::npos, "VTK header does not describe the grid");
                    double sp[3] = {0, 0, 0}; size_t sa = vtk.find("SPACING "); REQ(sa < at && sscanf(vtk.c_str() + sa + 8, "%lf %lf %lf", sp, sp + 1, sp + 2) == 3, "VTK header has no spacing"); for (int d = 0; d < (int)l.size(); ++d) if (b[d] == 2) REQ(std::fabs(sp[d] * (1 << l[d]) - 1) < 1e-4, "VTK header: spacing %g in dimension %d of level %d", sp[d], d, (int)l[d]); }
                }
                MPI_Barrier(cm);
              };
              if (ty) doit(cd()); else doit(double());
              MPI_Comm_free(&cm);
            });
            c.progressMark();
          }
        }
        c.nontriv();
      });
    }
  }
  // --- the tool that compares two plot files: the two-norm of the difference, absolute or of the normalized grids
  for (auto& lb : vector<std::pair<IV, IV>>{{{2, 2}, {2, 2}}, {{3, 1}, {1, 2}}, {{2, 1, 2}, {2, 0, 1}}, {{1, 2, 1, 1}, {2, 2, 2, 2}}, {{1, 1, 1, 1, 1}, {2, 1, 0, 1, 2}}, {{1, 1, 1, 1, 1, 1}, {2, 1, 1, 1, 1, 2}}}) for (int q = 0; q < 3; ++q) h.add("compare plot files " + hz::vs(lb.first) + hz::vs(lb.second) + hz::fmt(" procs %d", q), [=](hz::Ctx& c) {
    IV l = lb.first, b = lb.second, n = npoints(l, b), p(l.size(), 1); if (q == 1) p[0] = std::min(2, n[0]); if (q == 2) p.back() = std::min(2, n.back()); long N = prod(n);
    auto val = [](long i, int f) { return f == 1 ? 0.25 * (i % 5) - 0.3 : 1.5 + 0.125 * (i % 7) + (f == 2 ? 0.5 * (i % 3) : 0); };
    vmpi::Options o; o.nranks = (int)prod(p);
    c.check("write", o, [=](int) { MPI_Comm cm = cart(MPI_COMM_WORLD, p, b); for (int f = 0; f < 3; ++f) { cg::OwningDistributedFullGrid<double> g((cg::DimType)l.size(), lv(l), cm, u8(b), p); for (long i = 0; i < g.getNrLocalElements(); ++i) { cg::IndexVector li(l.size()), gi(l.size()); g.getLocalVectorIndex((cg::IndexType)i, li); g.getGlobalVectorIndex(li, gi); g.getData()[i] = val(lin(IV(gi.begin(), gi.end()), n), f); } g.writePlotFile(hz::fmt("e%d.bin", f).c_str()); } MPI_Comm_free(&cm); });
    if (c.failed) return;
    c.check("compare", vmpi::Options(), [=](int) {
      unlink("err.txt"); std::cout.setstate(std::ios::failbit); int k = 0; vector<double> want; vector<std::string> pre;
      for (const char* mode : {"abs", "normalize"}) for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) {
        long double nx = 0, ny = 0, e = 0; for (long i = 0; i < N; ++i) { nx += (long double)val(i, x) * val(i, x); ny += (long double)val(i, y) * val(i, y); } nx = mode[0] == 'n' ? std::sqrt(nx) : 1; ny = mode[0] == 'n' ? std::sqrt(ny) : 1; for (long i = 0; i < N; ++i) { long double d = val(i, x) / nx - val(i, y) / ny; e += d * d; } want.push_back((double)std::sqrt(e));
        std::string as[6] = {"errorCalc", mode, hz::fmt("e%d.bin", x), hz::fmt("e%d.bin", y), "err.txt", hz::fmt("run%d", k++)}; char* av[7] = {}; for (int j = 0; j < 6; ++j) av[j] = &as[j][0]; pre.push_back(as[5]); REQ(errorCalc_main(6, av) == 0, "the tool fails");
      }
      std::cout.clear(); std::istringstream is(slurp("err.txt")); for (size_t j = 0; j < want.size(); ++j) { std::string w; double v = -1; is >> w >> v; REQ(w == pre[j], "line %zu of the result starts with '%s'", j, w.c_str()); REQ(std::abs(v - want[j]) < 1e-5 * (1 + want[j]), "error %.9g of comparison %zu instead of %.9g", v, j, want[j]); } std::string rest; REQ(!(is >> rest), "more results than comparisons");
    });
    c.count(18); if (!c.failed) c.nontriv();
  });
  // --- sparse grids of workers: one file, several file parts, subspace sizes, extreme coefficients
  struct SG { int ngroup; IV procs; IV lmax, bnd; };
  vector<SG> sg = {{1, {1, 1}, {3, 3}, {2, 2}}, {1, {2, 1}, {3, 3}, {2, 2}}, {1, {1, 3}, {3, 4}, {1, 2}}, {2, {1, 1}, {3, 3}, {1, 1}}, {2, {2, 1}, {4, 3}, {2, 1}}, {1, {2, 2}, {3, 3}, {2, 2}}, {2, {1, 3}, {3, 4}, {2, 2}}, {3, {2, 1}, {3, 3}, {2, 2}}, {1, {5, 1}, {4, 2}, {2, 2}}, {2, {2, 2}, {3, 3}, {1, 2}}};
  if (T) { sg.push_back({3, {3, 1}, {4, 3}, {2, 2}}); sg.push_back({2, {2, 3}, {3, 4}, {2, 1}}); sg.push_back({1, {7, 1}, {4, 2}, {2, 2}}); }
  sg.push_back({1, {12, 1}, {4, 2}, {2, 2}});
  for (auto& s : sg) for (int parts = 1; parts <= (int)prod(s.procs); ++parts) for (int variant : {0, 2}) for (int dk = 0; dk < (T ? 4 : 2); ++dk) {
    if (parts != 1 && parts > 6 && parts < 11 && !T) continue;
    h.add(hz::fmt("sparse grid %d groups of %s, lmax %s boundary %s, %d parts, variant %d, decomposition %d", s.ngroup, hz::vs(s.procs).c_str(), hz::vs(s.lmax).c_str(), hz::vs(s.bnd).c_str(), parts, variant, dk), [=](hz::Ctx& c) {
      Cfg q; q.lmin = {s.procs[0] > 6 ? 4 : 1, 1}; q.lmax = s.lmax; q.bnd = s.bnd; q.basis = {HAT, HAT}; q.procs = s.procs; q.ngroup = s.ngroup; q.variant = variant;
      IV n = npoints(s.lmax, s.bnd); double nd = ndecs(n, s.procs); if (dk) q.dec = decAt(n, s.procs, std::floor(nd * dk / 4));
      classical(q.lmin, q.lmax, q.levels, q.coeffs); for (size_t i = 0; i < q.levels.size(); ++i) q.group.push_back((int)i % q.ngroup);
      vmpi::Options o; o.nranks = q.workers();
      c.check("files", o, [=](int rank) {
        canary::mark();
        Worker w; setupWorker(q, w, MPI_COMM_WORLD); auto S = cg::theMPISystem(); auto& G = sgw(w); auto& dsg = *G.getCombinedUniDSGVector()[0];
        if (parts > 1) S->initOutputGroupComm((uint16_t)parts);
        auto fill = [&](auto& d, long off) { for (size_t i = 0; i < d.getRawDataSize(); ++i) d.getRawData()[i] = off < 0 ? -77.0 : std::ldexp(double((S->getWorldRank() * 1000 + (long)i) * 2 + off), -3); };
        auto same = [&](auto& d, long off, double times, double plus, const char* what) { for (size_t i = 0; i < d.getRawDataSize(); ++i) { double e = std::ldexp(double((S->getWorldRank() * 1000 + (long)i) * 2 + off), -3) * times + plus; REQ(biteq(d.getRawData()[i], e), "%s: coefficient %d is %g instead of %g", what, (int)i, d.getRawData()[i], e); } };
        auto clean = [&] { if (rank == 0) { if (DIR* dd = opendir(".")) { while (auto* e = readdir(dd)) if (e->d_name[0] != '.' || strstr(e->d_name, ".part")) unlink(e->d_name); closedir(dd); } } MPI_Barrier(MPI_COMM_WORLD); };
        clean();
        // one file per group
        std::string grp = "g" + std::to_string(S->getProcessGroupNumber());
        fill(dsg, 1); G.writeDSGsToDisk(grp, w.getCombiParameters().getCombinationVariant()); fill(dsg, -1);
        int nr = G.readDSGsFromDisk(grp, true); REQ(nr == (int)dsg.getRawDataSize(), "reading %d coefficients returned %d", (int)dsg.getRawDataSize(), nr); same(dsg, 1, 1, 0, "one file");
        nr = G.readDSGsFromDiskAndReduce(grp, 1, true); REQ(nr == (int)dsg.getRawDataSize(), "reducing %d coefficients returned %d", (int)dsg.getRawDataSize(), nr); same(dsg, 1, 2, 0, "one file, added");
        REQ(canary::intact(), "sparse grid file functions wrote outside of their buffers");
        // one file per rank
        fill(dsg, 3); cg::DistributedSparseGridIO::writeToDiskChunked(dsg, grp + "_r"); fill(dsg, -1); cg::DistributedSparseGridIO::readFromDiskChunked(dsg, grp + "_r"); same(dsg, 3, 1, 0, "one file per rank");
        // sizes: one file per group, every buffer length
        {
          auto sizes = dsg.getSubspaceDataSizes(); int ns = (int)sizes.size();
          int nw = cg::DistributedSparseGridIO::writeSubspaceSizesToFile(dsg, grp + "_s"); REQ(nw == ns, "writing %d sizes returned %d", ns, nw);
          cg::DistributedSparseGridUniform<double> d2(dsg.getDim(), dsg.getAllLevelVectors(), S->getLocalComm());
          nr = cg::DistributedSparseGridIO::readSubspaceSizesFromFile(d2, grp + "_s"); REQ(nr == ns && d2.getSubspaceDataSizes() == sizes, "subspace sizes read back differ");
          for (int buf = 0; buf <= ns + 1; ++buf) {
            for (int i = 0; i < ns; ++i) d2.getSubspaceDataSizes()[i] = i % 3 == 0 ? 0 : i % 3 == 1 ? 1000000 : sizes[i];
            nr = cg::DistributedSparseGridIO::readReduceSubspaceSizesFromFile(d2, grp + "_s", [](cg::SubspaceSizeType a, cg::SubspaceSizeType b) { return std::min(a, b); }, buf);
            for (int i = 0; i < ns; ++i) REQ(nr == ns && d2.getSubspaceDataSizes()[i] == (i % 3 == 0 ? 0 : sizes[i]), "subspace size %d reduced wrongly (buffer of %d)", i, buf);
            for (int i = 0; i < ns; ++i) d2.getSubspaceDataSizes()[i] = i;
            nr = cg::DistributedSparseGridIO::readReduceSubspaceSizesFromFiles(d2, {grp + "_s", grp + "_s"}, [](cg::SubspaceSizeType a, cg::SubspaceSizeType b, cg::SubspaceSizeType x) { return 100 * a + 10 * b + x; }, buf);
            for (int i = 0; i < ns; ++i) REQ(nr == ns && d2.getSubspaceDataSizes()[i] == 101 * sizes[i] + 10 * i, "subspace size %d reduced wrongly from two files (buffer of %d)", i, buf);
          }
        }
        // extreme coefficients of every subspace over all ranks and groups; several sign patterns
        for (int sign = 0; sign < 3; ++sign) {
          std::map<std::string, std::pair<double, double>> want; double lo, hi2; int ns = (int)dsg.getNumSubspaces();
          for (size_t i = 0; i < dsg.getRawDataSize(); ++i) { double v = ((S->getWorldRank() * 37 + (int)i * 11) % 64 + 1) / 8.0; dsg.getRawData()[i] = sign == 0 ? v : sign == 1 ? -v : v - 4; }
          vector<double> mn(ns, 1e300), mx(ns, -1e300);
          for (int i = 0; i < ns; ++i) for (size_t k = 0; k < dsg.getDataSize(i); ++k) { double v = dsg.getData(i)[k]; mn[i] = std::min(mn[i], v); mx[i] = std::max(mx[i], v); }
          MPI_Allreduce(MPI_IN_PLACE, mn.data(), ns, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD); MPI_Allreduce(MPI_IN_PLACE, mx.data(), ns, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
          G.writeMinMaxCoefficients("mm"); MPI_Barrier(MPI_COMM_WORLD);
          if (rank == 0) {
            std::ifstream f("mm_0.txt"); std::string line; int at = 0;
            for (int i = 0; i < ns; ++i) if (mn[i] < 1e300) {
              REQ(bool(std::getline(f, line)), "extreme coefficients: subspace %d is missing", i);
              size_t k = line.find(" : "); REQ(k != std::string::npos && sscanf(line.c_str() + k + 3, "%lf, %lf", &lo, &hi2) == 2, "extreme coefficients: cannot parse '%s'", line.c_str());
              REQ(std::abs(lo - mn[i]) < 1e-4 && std::abs(hi2 - mx[i]) < 1e-4, "extreme coefficients of subspace %d (sign pattern %d): %g and %g instead of %g and %g", i, sign, lo, hi2, mn[i], mx[i]); ++at;
            }
            REQ(!std::getline(f, line) || line.empty(), "extreme coefficients: superfluous line '%s'", line.c_str());
          }
          MPI_Barrier(MPI_COMM_WORLD);
        }
        // extra sparse grid of the output group, in `parts` files; a second data set with a similar name
        if (S->getOutputGroupComm() != MPI_COMM_NULL) {
          MPI_Comm oc = S->getOutputGroupComm();
          G.setExtraSparseGrid(true); auto& x = *G.getExtraUniDSGVector()[0]; x.createSubspaceData();
          for (int step = 0; step < 2; ++step) {
            fill(dsg, 5 + 2 * step); w.writeDSGsToDisk("x", "tok"); MPI_Barrier(oc);
            fill(dsg, 21); w.writeDSGsToDisk("xx", "tok2"); MPI_Barrier(oc);
            int nf = 0, nt = 0;
            if (DIR* dd = opendir(".")) { while (auto* e = readdir(dd)) { if (!strncmp(e->d_name, "x_0.part", 8)) ++nf; if (!strncmp(e->d_name, "tok.part", 8)) ++nt; } closedir(dd); }
            REQ(nf == parts && nt == parts, "%d sparse grid files and %d token files for %d parts", nf, nt, parts);
            MPI_Barrier(oc);
            fill(x, -1); fill(dsg, -1);
            nr = w.readReduce({"x"}, {"tok"}, true); REQ(nr == (int)x.getRawDataSize(), "reading %d coefficients returned %d", (int)x.getRawDataSize(), nr);
            same(x, 5 + 2 * step, 1, 0, "file parts"); same(dsg, 5 + 2 * step, 1, 0, "file parts, copied to the combined grid");
            nr = w.readReduce({"x"}, {"tok"}, false); same(x, 5 + 2 * step, 2, 0, "file parts, added"); same(dsg, 5 + 2 * step, 2, 0, "file parts, added and copied");
            MPI_Barrier(oc);
            G.removeReadingFiles({"x"}, {"tok"}, step == 0); MPI_Barrier(oc);
            nf = nt = 0; int nx = 0;
            if (DIR* dd = opendir(".")) { while (auto* e = readdir(dd)) { if (!strncmp(e->d_name, "x_0.part", 8)) ++nf; if (!strncmp(e->d_name, "tok.part", 8)) ++nt; if (!strncmp(e->d_name, "xx_0.part", 9)) ++nx; } closedir(dd); }
            REQ(nf == (step ? 0 : parts) && nt == 0 && nx == parts, "after removing the files that were read: %d sparse grid files, %d tokens, %d files of another data set (%d parts)", nf, nt, nx, parts);
            MPI_Barrier(oc);
          }
          REQ(canary::intact(), "sparse grid file functions wrote outside of their buffers");
        }
        MPI_Barrier(MPI_COMM_WORLD); clean();
      });
      c.nontriv();
    });
  }
  // extreme coefficients after combinations (collected during it, or from the sparse grid that remains)
  struct XC { int ngroup; IV procs, lmin, lmax, bnd; };
  vector<XC> xc = {{1, {1, 1}, {1, 1}, {3, 3}, {2, 2}}, {2, {1, 1}, {1, 1}, {3, 3}, {2, 1}}, {3, {2, 1}, {1, 1}, {3, 3}, {2, 2}}, {2, {1, 2}, {1, 2}, {3, 4}, {1, 2}}, {2, {2, 2}, {2, 1}, {4, 3}, {0, 2}}, {5, {1, 1}, {1, 1}, {3, 3}, {0, 0}}, {3, {1, 2, 1}, {1, 1, 1}, {2, 3, 3}, {2, 1, 2}}, {4, {2}, {1}, {5}, {2}}};
  for (auto& x : xc) for (int variant = 0; variant < 4; ++variant) for (int turn = 0; turn < (T ? 6 : 3); ++turn) h.add(hz::fmt("extremes %d groups of %s, %s..%s boundary %s, variant %d, turn %d", x.ngroup, hz::vs(x.procs).c_str(), hz::vs(x.lmin).c_str(), hz::vs(x.lmax).c_str(), hz::vs(x.bnd).c_str(), variant, turn), [=](hz::Ctx& c) {
    Cfg q; q.lmin = x.lmin; q.lmax = x.lmax; q.bnd = x.bnd; for (int b : x.bnd) q.basis.push_back(b == 1 ? HATP : HAT); q.procs = x.procs; q.ngroup = x.ngroup; q.variant = variant; classical(q.lmin, q.lmax, q.levels, q.coeffs); if ((int)q.levels.size() < q.ngroup) return;
    for (size_t d = 0; d < x.procs.size(); ++d) if (x.procs[d] > npoints(x.lmin[d], x.bnd[d])) return;
    for (size_t i = 0; i < q.levels.size(); ++i) q.group.push_back((int)(i * (turn % 2 ? q.levels.size() - 1 : 1) + turn) % q.ngroup); if ((int)std::set<int>(q.group.begin(), q.group.end()).size() < q.ngroup) return;
    typedef std::map<IV, std::pair<double, double>> Ex; vector<Ex> want; World W(q);
    for (int step = 0; step < 2; ++step) { W.run(); W.hierarchize(); W.reduce(); W.distribute(); Ex e; for (auto& g : W.g) for (long i = 0; i < g.size(); ++i) { auto it = W.sparse.find(W.key(g, i)); if (it == W.sparse.end()) continue; auto p = e.emplace(g.subspace(i), std::make_pair(it->second, it->second)).first; p->second.first = std::min(p->second.first, it->second); p->second.second = std::max(p->second.second, it->second); } want.push_back(e); W.dehierarchize(); }
    vmpi::Options o; o.nranks = q.workers(); o.syncColl = false; auto n = std::make_shared<long>(0);
    c.check("combine and write", o, [=](int) {
      cg::Stats::initialize(); Worker w; setupWorker(q, w, MPI_COMM_WORLD);
      for (int step = 0; step < 2; ++step) { w.runAllTasks(); w.combineAtOnce(variant == 3 || turn == 0); w.writeSparseGridMinMaxCoefficients(hz::fmt("ex%d", step)); }
      cg::Stats::finalize();
    }, [&](const vmpi::Result&) {
      for (int step = 0; step < 2; ++step) {
        std::string fn = hz::fmt("ex%d_0.txt", step), text = slurp(fn), line; unlink(fn.c_str()); std::istringstream f(text); Ex got;
        while (std::getline(f, line)) { size_t k = line.find(" : "); if (k == std::string::npos) return "cannot parse '" + line + "'"; IV l; std::string t = line.substr(0, k); for (char& ch : t) if (!isdigit((unsigned char)ch)) ch = ' '; std::istringstream ls(t); int v; while (ls >> v) l.push_back(v); double lo, hi2; if (sscanf(line.c_str() + k + 3, "%lf, %lf", &lo, &hi2) != 2) return "cannot parse '" + line + "'"; if (!got.emplace(l, std::make_pair(lo, hi2)).second) return "subspace " + hz::vs(l) + " is listed twice"; }
        auto near = [](double a, double b) { return std::fabs(a - b) <= 2e-5 * (1 + std::fabs(b)); };
        for (auto& e : want[step]) { auto it = got.find(e.first); if (it == got.end()) return hz::fmt("combination %d: subspace %s is missing", step, hz::vs(e.first).c_str()); if (!near(it->second.first, e.second.first) || !near(it->second.second, e.second.second)) return hz::fmt("combination %d: extremes of subspace %s are %g and %g instead of %g and %g", step, hz::vs(e.first).c_str(), it->second.first, it->second.second, e.second.first, e.second.second); ++*n; }
        if (got.size() != want[step].size()) return hz::fmt("combination %d: %d subspaces instead of %d", step, (int)got.size(), (int)want[step].size());
      }
      return std::string(); });
    c.count(*n); if (!c.failed) c.nontriv();
  });
  // every truncation and extension of a rank's own file
  h.add("damaged file per rank", [=](hz::Ctx& c) {
    Cfg q; q.lmin = {1, 1}; q.lmax = {2, 2}; q.bnd = {2, 2}; q.basis = {HAT, HAT}; q.procs = {1, 1}; q.ngroup = 1; classical(q.lmin, q.lmax, q.levels, q.coeffs); q.group = IV(q.levels.size(), 0);
    auto len = std::make_shared<long>(0); vmpi::Options o; o.nranks = 1;
    c.check("write", o, [=](int) { Worker w; setupWorker(q, w, MPI_COMM_WORLD); auto& d = *sgw(w).getCombinedUniDSGVector()[0]; cg::DistributedSparseGridIO::writeToDiskChunked(d, "r"); *len = (long)d.getRawDataSize() * 8; });
    std::string good = slurp("r0"); if (!c.failed && (long)good.size() != *len) { c.report("write", "property", "file of a rank has a wrong size"); return; }
    for (long k = 0; k <= (long)good.size() + 9 && !c.failed; ++k) if (k != (long)good.size()) {
      put("r0", k < (long)good.size() ? good.substr(0, k) : good + std::string(k - good.size(), 'x'));
      c.checkFails(hz::fmt("%ld of %d bytes", k, (int)good.size()), o, [=](int) { Worker w; setupWorker(q, w, MPI_COMM_WORLD); try { cg::DistributedSparseGridIO::readFromDiskChunked(*sgw(w).getCombinedUniDSGVector()[0], "r"); } catch (std::exception&) { vmpi::fail("reported", ""); } }, "reported", "the file was accepted although its size does not match");
    }
    c.nontriv();
  });

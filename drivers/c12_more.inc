// C12, continued: prefixed messages, sending, forwarding, files, ThirdLevelUtils, broker
namespace {
struct Cnt { hz::Ctx* c; std::shared_ptr<long> n = std::make_shared<long>(0); void operator()() const { if (!(++*n & 4095)) c->progressMark(); } };
S prefixed(const S& m) { return std::to_string(m.size()) + "#" + m; }
// a sequence of messages, received with the three ways to receive
void receiveAll(const vector<S>& msgs, int how, uint64_t mask, const Fault& f) {
  net::reset(); S all; for (auto& m : msgs) all += prefixed(m);
  Cli c(all + NEXT); c.e().rmask = mask; c.e().rfail = f.at; c.e().rkind = f.kind;
  S ctx = hz::fmt("stream %s, cuts %lx, %s at byte %ld", show(all).c_str(), (long)mask, fname(f.kind), f.at);
  size_t pos = 0;
  for (auto& m : msgs) {
    S got = "old"; bool ok; pos += prefixed(m).size();
    if (how == 0) ok = c.s.recvallPrefixed(got);
    else if (how == 1) { std::unique_ptr<char[]> b; size_t len = 77; ok = c.s.recvallPrefixed(b, len); if (ok) got = S(b.get(), len); }
    else { size_t len = 0; ok = c.s.recvLength(len); if (ok) { REQ(len == m.size(), "length %d instead of %d (%s)", (int)len, (int)m.size(), ctx.c_str()); if (how == 2) ok = c.s.recvall(got, len); else { vector<char> b(len + 1); ok = c.s.recvall(b.data(), len); if (ok) got = S(b.data(), len); } } }
    bool broken = f.at >= 0 && (size_t)f.at < pos;
    REQ(ok || broken, "complete message reported as failure (%s)", ctx.c_str());
    if (ok) REQ(!broken || f.kind == net::INTR, "broken connection reported as message (%s)", ctx.c_str());
    REQ(c.e().got <= pos, "bytes of the next message consumed (%s)", ctx.c_str());
    if (!ok) return;
    REQ(c.e().got == pos && got == m, "received %s instead of %s (%s)", show(got).c_str(), show(m).c_str(), ctx.c_str());
  }
}
struct SendOp { int kind; S m; };   // 0 string, 1 buffer, 2 prefixed string, 3 prefixed buffer, 4 floats, 5 doubles
S wire(const SendOp& o) { if (o.kind <= 1) return o.m; if (o.kind <= 3) return prefixed(o.m); return S(1, LITTLE ? (char)1 : (char)0) + o.m; }
bool doSendOp(cg::ClientSocket& s, const SendOp& o) {
  switch (o.kind) {
    case 0: return s.sendall(o.m); case 1: return s.sendall(o.m.data(), o.m.size()); case 2: return s.sendallPrefixed(o.m); case 3: return s.sendallPrefixed(o.m.data(), o.m.size());
    case 4: { vector<float> v(o.m.size() / 4); memcpy(v.data(), o.m.data(), o.m.size()); return s.sendallBinary(v.data(), v.size()); }
    default: { vector<double> v(o.m.size() / 8); memcpy(v.data(), o.m.data(), o.m.size()); return s.sendallBinary(v.data(), v.size()); }
  }
}
void sendAll(const vector<SendOp>& ops, uint64_t mask, const Fault& f) {
  net::reset(); Cli c(""); c.e().wmask = mask; c.e().wfail = f.at; c.e().wkind = f.kind; S want;
  S ctx = hz::fmt("cuts %lx, %s at byte %ld", (long)mask, fname(f.kind), f.at);
  for (auto& o : ops) {
    want += wire(o); bool ok = doSendOp(c.s, o); bool broken = f.at >= 0 && (size_t)f.at < want.size();
    REQ(ok || broken, "sending reported as failure (%s)", ctx.c_str());
    if (ok && f.kind != net::INTR) REQ(!broken, "incomplete sending reported as success (%s)", ctx.c_str());
    REQ(want.compare(0, c.e().out.size(), c.e().out) == 0, "sent %s instead of %s (%s)", show(c.e().out).c_str(), show(want).c_str(), ctx.c_str());
    if (!ok) return;
    REQ(c.e().out == want, "sent %s instead of %s (%s)", show(c.e().out).c_str(), show(want).c_str(), ctx.c_str());
  }
}
void forward1(const S& data, size_t size, size_t chunk, uint64_t rm, uint64_t wm, const Fault& rf, const Fault& wf) {
  net::reset(); net::listenOn(9999); cg::ClientSocket a("h", 9999), b("h", 9999); REQ(a.init() && b.init(), "connect");
  net::End &ea = *net::end(a.getFileDescriptor()), &eb = *net::end(b.getFileDescriptor()); ea.peer = eb.peer = -1;
  ea.in = data; ea.rmask = rm; ea.rfail = rf.at; ea.rkind = rf.kind; eb.wmask = wm; eb.wfail = wf.at; eb.wkind = wf.kind;
  bool ok = cg::NetworkUtils::forward(a, b, chunk, size);
  S ctx = hz::fmt("%d of %d bytes, chunk %d, cuts %lx/%lx, %s at byte %ld of the sender, %s at byte %ld of the receiver", (int)size, (int)data.size(), (int)chunk, (long)rm, (long)wm, fname(rf.kind), rf.at, fname(wf.kind), wf.at);
  bool broken = rf.at >= 0 || wf.at >= 0, hard = (rf.at >= 0 && rf.kind != net::INTR) || (wf.at >= 0 && wf.kind != net::INTR);
  REQ(ok || broken, "forwarding reported as failure (%s)", ctx.c_str()); REQ(!ok || !hard, "incomplete forwarding reported as success (%s)", ctx.c_str());
  REQ(ea.got <= size, "bytes of the next message consumed (%s)", ctx.c_str());
  REQ(data.compare(0, eb.out.size(), eb.out) == 0 && eb.out.size() <= size, "forwarded %s instead of %s (%s)", show(eb.out).c_str(), show(data.substr(0, size)).c_str(), ctx.c_str());
  if (ok) REQ(eb.out.size() == size && ea.got == size, "forwarded %d of %d bytes (%s)", (int)eb.out.size(), (int)size, ctx.c_str());
}
void toFile(const S& body, size_t chunk, uint64_t mask, const Fault& f) {
  net::reset(); Cli c(S(1, LITTLE ? (char)1 : (char)0) + body + NEXT); c.e().rmask = mask; c.e().rfail = f.at; c.e().rkind = f.kind;
  bool ok = c.s.recvallBinaryToFile("received", body.size(), chunk);
  S ctx = hz::fmt("%d bytes, chunk %d, cuts %lx, %s at byte %ld", (int)body.size(), (int)chunk, (long)mask, fname(f.kind), f.at);
  REQ(ok || f.at >= 0, "complete block reported as failure (%s)", ctx.c_str()); REQ(!ok || f.at < 0 || f.kind == net::INTR, "broken connection reported as complete file (%s)", ctx.c_str());
  REQ(c.e().got <= body.size() + 1, "bytes of the next message consumed (%s)", ctx.c_str());
  if (!ok) return;
  std::ifstream i("received", std::ios::binary); std::stringstream ss; ss << i.rdbuf(); REQ(ss.str() == body, "file contains %s instead of %s (%s)", show(ss.str()).c_str(), show(body).c_str(), ctx.c_str());
}
// ---- ThirdLevelUtils against a scripted peer; fails => has to be reported
template <class F> bool raises(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
struct Utl { cg::ThirdLevelUtils* u; int fd = -1; Utl() { net::listenOn(9999); int before = net::net().next; u = new cg::ThirdLevelUtils("h", 9999); u->connectToThirdLevelManager(1.); fd = before; e().peer = -1; } net::End& e() { return *net::end(fd); } ~Utl() { delete u; } };
void utils(int op, uint64_t mask, const Fault& f, int wrong) {
  net::reset(); Utl t; vector<double> d = {1.5, -2.25}; vector<double> buf = {10, 20, 30};
  S in; bool sending = false; S want;
  switch (op) {
    case 0: in = prefixed("send_first"); break;
    case 1: in = prefixed(std::to_string(17 + wrong)) + encode(d, LITTLE); break;
    case 2: in = prefixed(std::to_string(17 + wrong)) + encode(d, !LITTLE); break;
    case 3: sending = true; want = prefixed("sending_data") + prefixed("17") + encode(d, LITTLE); break;
    case 4: sending = true; want = prefixed("ready_to_combine"); break;
    case 5: sending = true; want = prefixed("ready_to_unify_subspace_sizes"); break;
    case 6: in = prefixed(wrong == 0 ? "4000000000" : wrong == 1 ? "12x" : wrong == 2 ? "x" : "-3"); break;
  }
  S tail = op == 1 || op == 2 ? S(200, 'x') : NEXT; size_t L = sending ? want.size() : in.size();
  net::End& e = t.e(); e.in = in + tail; if (sending) { e.wmask = mask; e.wfail = f.at; e.wkind = f.kind; } else { e.rmask = mask; e.rfail = f.at; e.rkind = f.kind; }
  S ins; size_t sz = 0;
  bool bad = raises([&] {
    switch (op) { case 0: ins = t.u->fetchInstruction(); break; case 1: t.u->recvData(buf.data(), 2); break; case 2: t.u->recvAndAddToData(buf.data(), 2); break; case 3: t.u->sendData(d.data(), 2); break; case 4: t.u->signalReadyToCombine(); break; case 5: t.u->signalReadyToUnifySubspaceSizes(); break; case 6: sz = t.u->receiveSize(); break; }
  });
  S ctx = hz::fmt("operation %d, cuts %lx, %s at byte %ld, size off by %d", op, (long)mask, fname(f.kind), f.at, wrong);
  REQ(!bad || f.at >= 0 || wrong, "failure although the connection works (%s)", ctx.c_str());
  if (op == 0 && !bad && ins.empty()) bad = true;   // no instruction
  if (!bad && f.at >= 0 && f.kind != net::INTR) REQ(false, "broken connection is not reported (%s)", ctx.c_str());
  if (!bad && wrong && (f.at < 0)) REQ(false, "size mismatch or malformed number is not reported (%s)", ctx.c_str());
  if (!bad && (f.at < 0 || f.kind == net::INTR)) {
    if (op == 0) REQ(ins == "send_first", "instruction %s (%s)", ins.c_str(), ctx.c_str());
    if (op == 1) REQ(buf == vector<double>({1.5, -2.25, 30}), "wrong data (%s)", ctx.c_str());
    if (op == 2) REQ(buf == vector<double>({11.5, 17.75, 30}), "wrong data (%s)", ctx.c_str());
    if (op == 6) REQ(sz == 4000000000ul, "size %ld (%s)", (long)sz, ctx.c_str());
    if (!sending) REQ(e.got == L, "%d of %d bytes consumed (%s)", (int)e.got, (int)L, ctx.c_str());
  }
  if (sending) REQ(want.compare(0, e.out.size(), e.out) == 0 && (bad || e.out == want), "sent %s instead of %s (%s)", show(e.out).c_str(), show(want).c_str(), ctx.c_str());
  e.rfail = e.wfail = -1;
}
// ---- broker and two systems
// script letters: C combine with one block, D combine with two blocks, U subspace sizes, X any data both ways, Y any data one way, F files
struct Broker { S script; size_t chunk; int dying; long dieAfter; };
double bval(int sys, int op, int blk, int i) { return 1000 * sys + 100 * op + 10 * blk + i + 0.5; }
void systemBody(int sys, const Broker& b, std::shared_ptr<vector<int>> fate) {
  const int n = 3;
  auto* u = new cg::ThirdLevelUtils("h", 9999);
  bool dead = raises([&] {
    u->connectToThirdLevelManager(1.);
    for (size_t k = 0; k < b.script.size(); ++k) {
      char op = b.script[k]; S ins; bool first = false;
      auto fetch = [&] { ins = u->fetchInstruction(); if (ins.empty()) throw std::runtime_error("no instruction"); if (op == 'F') { REQ(ins == "write_ok", "instruction %s", ins.c_str()); } else { REQ(ins == "send_first" || ins == "recv_first", "instruction %s", ins.c_str()); first = ins == "send_first"; } };
      if (op == 'C' || op == 'D') {
        u->signalReadyToCombine(); fetch();
        for (int blk = 0; blk < (op == 'C' ? 1 : 2); ++blk) {
          vector<double> d(n + 1, 7); for (int i = 0; i < n; ++i) d[i] = bval(sys, (int)k, blk, i);
          if (first) { u->sendData(d.data(), n); u->recvData(d.data(), n); } else { u->recvAndAddToData(d.data(), n); u->sendData(d.data(), n); }
          for (int i = 0; i < n; ++i) REQ(d[i] == bval(1, (int)k, blk, i) + bval(2, (int)k, blk, i), "system %d, exchange %d, block %d: entry %d is %g", sys, (int)k, blk, i, d[i]); REQ(d[n] == 7, "written behind the block");
        }
      } else if (op == 'U') {
        u->signalReadyToUnifySubspaceSizes(); fetch();
        vector<cg::SubspaceSizeType> mine(n), other(n, 0); for (int i = 0; i < n; ++i) mine[i] = (cg::SubspaceSizeType)(4000000000u + 100 * sys + i);
        if (first) { u->sendData(mine.data(), n); u->recvData(other.data(), n); } else { u->recvData(other.data(), n); u->sendData(mine.data(), n); }
        for (int i = 0; i < n; ++i) REQ(other[i] == (cg::SubspaceSizeType)(4000000000u + 100 * (3 - sys) + i), "system %d: size %d is %u", sys, i, other[i]);
      } else if (op == 'X' || op == 'Y') {
        u->signalReadyToExchangeData(); fetch();
        vector<double> m(n), o(n, 0); for (int i = 0; i < n; ++i) m[i] = bval(sys, (int)k, 5, i);
        if (first) { u->sendData(m.data(), n); if (op == 'X') u->recvData(o.data(), n); } else { u->recvData(o.data(), n); if (op == 'X') u->sendData(m.data(), n); }
        if (op == 'X' || !first) for (int i = 0; i < n; ++i) REQ(o[i] == bval(3 - sys, (int)k, 5, i), "system %d: value %d is %g", sys, i, o[i]);
      } else { u->signalReadyToCombineFile(); fetch(); }
      u->signalReady();
    }
  });
  delete u;
  (*fate)[sys] = dead ? 2 : 1;
}
void brokerBody(const Broker& b, std::shared_ptr<vector<int>> fate) {
  bool dead = raises([&] {
    Params p; S port = "--port=9999", ns = "--numSystems=2", ch = "--chunksize=" + std::to_string(b.chunk); char* av[] = {(char*)"tlm", port.data(), ns.data(), ch.data()}; p.loadFromCmd(4, av);
    cg::ThirdLevelManager m(p); m.init();
    if (b.dying) { int k = 0; for (auto& x : net::net().ends) if (x.second.peer > x.first) if (++k == b.dying) { x.second.wfail = b.dieAfter; x.second.wkind = net::RESET; } }
    m.runtimeLoop(); m.writeStatistics("");
  });
  (*fate)[0] = dead ? 2 : 1;
}
void moreCases(hz::Harness& h, bool T) {
  auto add = [&](const S& id, std::function<void(const Cnt&)> f) { h.add(id, [=](hz::Ctx& c) { Cnt n{&c}; vmpi::Options o; c.check("", o, [=](int) { f(n); }); c.count(*n.n); c.nontriv(); }); };
  // sequences of prefixed messages
  vector<vector<S>> seqs = {{"a"}, {"ab", "c"}, {"#"}, {"1#x", "2"}, {S("\0\n", 2), "#"}, {"9", "99", "9#"}, {"0123456789"}, {"a", "b", "c", "d"}};
  for (auto& q : seqs) for (int how : {0, 1, 2, 3}) {
    S all; for (auto& m : q) all += prefixed(m); int L = (int)all.size();
    add("messages " + show(all) + " how=" + std::to_string(how), [=](const Cnt& n) { for (uint64_t m = 0; m < 1ul << (L - 1); ++m) { receiveAll(q, how, m, {-1, 0}); n(); if (T || L <= 9) for (auto& f : faults(L)) { receiveAll(q, how, m, f); n(); } } for (auto& f : faults(L)) { receiveAll(q, how, ~0ul, f); receiveAll(q, how, 0, f); n(); } });
  }
  for (size_t len : {9ul, 10ul, 55ul, 99ul, 100ul, 101ul, 1000ul, 65536ul, 200000ul}) add(hz::fmt("message of %ld bytes", (long)len), [=](const Cnt& n) { S m(len, 0); for (size_t i = 0; i < len; ++i) m[i] = (char)(i * 37 + i / 256); for (int how : {0, 1, 2, 3}) for (int k = 0; k < nsparse(24); ++k) { receiveAll({m, "z"}, how, sparse(24, k), {-1, 0}); n(); } for (long at : {0l, 1l, 3l, (long)len, (long)len - 1, (long)prefixed(m).size() - 1, (long)prefixed(m).size(), (long)prefixed(m).size() + 1}) for (int k : {1, 2, 3}) { receiveAll({m, "z"}, 0, 0, {at, k}); n(); } });
  // malformed lengths
  add("malformed lengths", [=](const Cnt& n) {
    vector<S> bad = {"#", "-5#", "abc#", "12abc#", "1 2#", " #", "+#", "-#", "0x3#", "1.5#", "0#", "99999999999999999999999999#", "18446744073709551616#", "1e3#", "5\n#", S("5\0", 2) + "#"};
    for (auto& b : bad) for (int how : {0, 1, 2}) for (uint64_t m = 0; m < 1ul << (std::min<size_t>(b.size(), 10) - 1); ++m) {
      net::reset(); Cli c(b + S(64, 'y')); c.e().rmask = m; c.e().eof = true; bool ok = false; S s; std::unique_ptr<char[]> p; size_t len = 0;
      bool ex = raises([&] { ok = how == 0 ? c.s.recvallPrefixed(s) : how == 1 ? c.s.recvallPrefixed(p, len) : c.s.recvLength(len); });
      REQ(ex || !ok, "malformed length %s accepted (way %d, length %ld)", show(b).c_str(), how, (long)len); n();
    }
    for (auto& g : vector<std::pair<S, size_t>>{{"1#", 1}, {"10#", 10}, {"2147483647#", 2147483647ul}, {"2147483648#", 2147483648ul}, {"3000000000#", 3000000000ul}, {"4294967296#", 4294967296ul}, {"10000000000000#", 10000000000000ul}}) for (uint64_t m = 0; m < 1ul << (std::min<size_t>(g.first.size(), 12) - 1); ++m) {
      net::reset(); Cli c(g.first + NEXT); c.e().rmask = m; size_t len = 0; bool ok = false; bool ex = raises([&] { ok = c.s.recvLength(len); });
      REQ(!ex && ok && len == g.second && c.e().got == g.first.size(), "length %s gives %ld (ok %d, exception %d)", g.first.c_str(), (long)len, ok, ex); n();
    }
  });
  // sending
  vector<vector<SendOp>> sends = {{{0, "abc"}, {2, "de"}}, {{1, "x"}, {3, "yz"}, {2, "w"}}, {{3, "#1#2"}, {0, "3"}}, {{4, "\x01\x02\x03\x04"}, {2, "k"}}, {{2, "k"}, {5, "\x01\x02\x03\x04\x05\x06\x07\x08"}}, {{4, "abcdefgh"}, {0, "z"}}, {{2, "0123456789"}}};
  for (size_t i = 0; i < sends.size(); ++i) add(hz::fmt("send sequence %d", (int)i), [=](const Cnt& n) { int L = 0; for (auto& o : sends[i]) L += (int)wire(o).size(); for (uint64_t m = 0; m < 1ul << (L - 1); ++m) for (auto& f : faults(L)) { sendAll(sends[i], m, f); n(); } });
  add("send long", [=](const Cnt& n) { S m(100000, 'q'); for (size_t i = 0; i < m.size(); ++i) m[i] = (char)(i * 31 + i / 256); for (int k = 0; k < nsparse(40); ++k) for (int kind : {0, 1, 2, 3, 4, 5}) { sendAll({{kind, m}, {2, "t"}}, sparse(40, k), {-1, 0}); n(); } for (long at : {0l, 1l, 5l, 6l, 7l, 99999l, 100000l, 100001l}) for (int kind : {0, 1, 2, 3, 4, 5}) for (int fk : {1, 2, 3}) { sendAll({{kind, m}}, 0, {at, fk}); n(); } });
  // forwarding
  for (size_t size : {1ul, 4ul, 6ul}) for (size_t chunk : {1ul, 2ul, 3ul, 4ul, 5ul, 6ul, 131072ul}) add(hz::fmt("forward size=%ld chunk=%ld", (long)size, (long)chunk), [=](const Cnt& n) {
    S data; for (size_t i = 0; i < size; ++i) data += (char)('A' + i); data += NEXT;
    for (uint64_t rm = 0; rm < 1ul << (size - 1); ++rm) for (uint64_t wm = 0; wm < 1ul << (size - 1); ++wm) { forward1(data, size, chunk, rm, wm, {-1, 0}, {-1, 0}); n(); if (wm == 0 || rm == 0 || size <= 4) for (auto& f : faults((int)size)) { forward1(data, size, chunk, rm, wm, f, {-1, 0}); forward1(data, size, chunk, rm, wm, {-1, 0}, f); n(); } }
  });
  for (size_t size : {1000ul, 131072ul, 131073ul, 300000ul}) add(hz::fmt("forward size=%ld", (long)size), [=](const Cnt& n) { S data(size, 0); for (size_t i = 0; i < size; ++i) data[i] = (char)(i * 41 + i / 256); data += NEXT; for (size_t chunk : {1000ul, 131072ul}) for (int k = 0; k < nsparse(12); ++k) { forward1(data, size, chunk, sparse(12, k), 0, {-1, 0}, {-1, 0}); forward1(data, size, chunk, 0, sparse(12, k), {-1, 0}, {-1, 0}); n(); } for (long at : {0l, 1l, 999l, (long)size - 1}) for (int k : {1, 2}) { forward1(data, size, 131072, 0, 0, {at, k}, {-1, 0}); forward1(data, size, 131072, 0, 0, {-1, 0}, {at, k}); n(); } });
  // binary block to file
  for (size_t size : {1ul, 5ul, 8ul}) for (size_t chunk : {1ul, 2ul, 3ul, 8ul, 131072ul}) add(hz::fmt("file size=%ld chunk=%ld", (long)size, (long)chunk), [=](const Cnt& n) { S d; for (size_t i = 0; i < size; ++i) d += (char)(i * 50 + 10); for (uint64_t m = 0; m < 1ul << (size - 1); ++m) { toFile(d, chunk, m << 1, {-1, 0}); n(); } for (auto& f : faults((int)size + 1)) { toFile(d, chunk, 0, f); toFile(d, chunk, ~0ul, f); n(); } });
  // helper functions
  add("tokens", [=](const Cnt& n) {
    const S al = "a1,-+ "; for (int len = 0; len <= 5; ++len) for (auto& w : cube(len, 0, (int)al.size() - 1)) {
      S s; for (int x : w) s += al[x];
      vector<S> got = {"old"}, want; S cur; for (char ch : s) if (ch == ',') { want.push_back(cur); cur.clear(); } else cur += ch; if (!cur.empty()) want.push_back(cur);
      cg::NetworkUtils::split(s, ',', got); REQ(got == want, "split of '%s'", s.c_str());
      size_t i = !s.empty() && (s[0] == '+' || s[0] == '-') ? 1 : 0; bool isInt = s.size() > i; for (size_t k = i; k < s.size(); ++k) isInt &= s[k] >= '0' && s[k] <= '9';
      if (s != "+" && s != "-") REQ(cg::NetworkUtils::isInteger(s) == isInt, "isInteger('%s')", s.c_str()); n();
    }
    for (int i = 0; i < 256; ++i) { uint32_t v = 0x01020300u + i; REQ(cg::NetworkUtils::reverseEndianness(v) == __builtin_bswap32(v), "reversed %x", v); uint64_t w = 0x0102030405060700ul + i; REQ(cg::NetworkUtils::reverseEndianness(w) == __builtin_bswap64(w), "reversed %lx", (long)w); double d; memcpy(&d, &w, 8); uint64_t r; d = cg::NetworkUtils::reverseEndianness(d); memcpy(&r, &d, 8); REQ(r == __builtin_bswap64(w), "reversed double %lx", (long)w); n(); }
  });
  // what the broker is told, on the command line in any order and in a file
  add("broker settings", [=](const Cnt& n) {
    for (int port : {1, 9999, 32768, 65535}) for (long sys : {-1l, 1l, 2l, 3l, 70000l}) for (long chunk : {-1l, 1l, 4096l, 131072l, 5000000000l}) {
      vector<S> a = {"--port=" + std::to_string(port)}; if (sys > 0) a.push_back("--numSystems=" + std::to_string(sys)); if (chunk > 0) a.push_back("--chunksize=" + std::to_string(chunk));
      std::sort(a.begin(), a.end());
      auto expect = [&](const Params& p, const char* how) { REQ(p.areLoaded() && p.getPort() == port && p.getNumSystems() == (sys > 0 ? sys : 2) && p.getChunksize() == (size_t)(chunk > 0 ? chunk : 131072), "%s: port %d, %ld systems, chunk %ld (0: not given) became %d, %ld, %ld", how, port, sys, chunk, (int)p.getPort(), (long)p.getNumSystems(), (long)p.getChunksize()); n(); };
      do { vector<char*> av = {(char*)"tlm"}; for (auto& x : a) av.push_back(x.data()); Params p; p.loadFromCmd((int)av.size(), av.data()); expect(p, "command line"); } while (std::next_permutation(a.begin(), a.end()));
      if (sys > 0) { { std::ofstream f("broker.ini"); f << "[Connection]\nport = " << port << "\n"; if (chunk > 0) f << "chunksize = " << chunk << "\n"; f << "[DistributedCombi]\nnumSystems = " << sys << "\n"; } Params p; p.loadFromFile("broker.ini"); expect(p, "file"); }
    }
  });
  // ThirdLevelUtils
  for (int op = 0; op < 7; ++op) add(hz::fmt("connection operation %d", op), [=](const Cnt& n) {
    int L = op == 0 ? 13 : op <= 2 ? 21 : op == 3 ? 35 : op == 4 ? 19 : op == 5 ? 32 : 13; bool all = L <= 13;
    for (int m = 0; m < (all ? 1 << (L - 1) : nsparse(L)); ++m) { uint64_t mask = all ? m : sparse(L, m); utils(op, mask, {-1, 0}, 0); n(); if (!all || (m & 63) == 0) for (auto& f : faults(L)) { utils(op, mask, f, 0); n(); } }
    if (op == 1 || op == 2) for (int w : {-17, -16, -9, -8, -1, 1, 7, 8, 16}) { utils(op, 0, {-1, 0}, w); n(); }
    if (op == 6) for (int w : {1, 2, 3}) { utils(op, 0, {-1, 0}, w); n(); }
  });
  // broker
  auto broker = [&](const S& script, size_t chunk, bool frag, int bound, int dying) {
    h.add(hz::fmt("broker script=%s chunk=%ld%s bound=%d%s", script.c_str(), (long)chunk, frag ? " fragments" : "", bound, dying ? hz::fmt(" system %d breaks off", dying).c_str() : ""), [=](hz::Ctx& c) {
      long total = 1;
      for (long die = 0; die < total; ++die) {
        vmpi::Options o; o.nranks = 3; o.bound = bound; o.schedChoice = true; o.preemptAt = vmpi::PT_USER; Broker b{script, chunk, dying, dying ? die : -1};
        auto sent = std::make_shared<long>(0); auto fate = std::make_shared<vector<int>>(3, 0);
        c.check(dying ? hz::fmt("after byte %ld", die) : "", o, [=](int r) {
          auto f = fate;
          if (r == 0) { net::reset(true, frag); *f = {0, 0, 0}; brokerBody(b, f); }
          else systemBody(r, b, f);
        }, [=](const vmpi::Result&) -> S {
          if (!dying) for (int i = 0; i < 3; ++i) if ((*fate)[i] != 1) return hz::fmt("%s ended with an exception", i ? hz::fmt("system %d", i).c_str() : "broker");
          for (auto& x : net::net().ends) *sent = std::max(*sent, (long)x.second.sent);
          if (dying && (*fate)[0] != 2) { bool broke = false; for (auto& x : net::net().ends) broke |= x.second.wfailed; if (broke) return "the broker reports success although a system broke off"; }
          return "";
        });
        if (c.failed) return; c.count(1);
        if (dying && die == 0) total = 400;   // the longest script sends fewer bytes than this
        if (dying && *sent < die) break;
      }
      c.nontriv();
    });
  };
  for (auto* s : {"C", "D", "U", "X", "Y", "F", "UC", "CC", "XC", "UCD", "FU"}) for (size_t ch : {1ul, 7ul, 131072ul}) { broker(s, ch, false, T ? 2 : 1, 0); if (ch != 1) broker(s, ch, true, 1, 0); }
  for (auto* s : {"C", "U", "X", "Y", "F", "UC"}) for (int d : {1, 2}) { broker(s, 131072, false, 0, d); broker(s, 16, false, 1, d); }
}
}  // namespace

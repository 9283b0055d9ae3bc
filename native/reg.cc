// The real service registry and its statistics against a map and a log of seconds.  argv[1]: rounds
#include "vh.h"
#include <map>
#include <set>
#include <deque>
#include <list>
#include <memory>
#include <climits>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <sofa/pbrpc/pbrpc.h>
#include <sofa/pbrpc/service_pool.h>
using namespace vh; using namespace sofa::pbrpc;
using std::string; using std::map;
static int gone = 0; static map<const void*, int> dead;
struct Svc : google::protobuf::Service {
    const google::protobuf::ServiceDescriptor* d; Svc(const google::protobuf::ServiceDescriptor* d) : d(d) {} ~Svc() { gone++; }
    const google::protobuf::ServiceDescriptor* GetDescriptor() { return d; }
    void CallMethod(const google::protobuf::MethodDescriptor*, google::protobuf::RpcController*, const google::protobuf::Message*, google::protobuf::Message*, google::protobuf::Closure*) {}
    const google::protobuf::Message& GetRequestPrototype(const google::protobuf::MethodDescriptor*) const { abort(); }
    const google::protobuf::Message& GetResponsePrototype(const google::protobuf::MethodDescriptor*) const { abort(); }
};
struct Sec { int64_t sc, st, sm, fc, ft, fm; Sec() { memset(this, 0, sizeof *this); } };
struct Model { Svc* s; std::vector<std::deque<Sec> > m; };          // per method: seconds, the running one at the back
static google::protobuf::DescriptorPool pool;
static string g_what = "registry"; static int file_no = 0;
static const google::protobuf::ServiceDescriptor* describe(const string& pkg, const string& name, int methods) {
    google::protobuf::FileDescriptorProto f; f.set_name("f" + S(file_no++) + ".proto"); f.set_package(pkg);
    string mt = "M" + S(file_no); f.add_message_type()->set_name(mt);
    auto* s = f.add_service(); s->set_name(name);
    for (int i = 0; i < methods; i++) { auto* m = s->add_method(); m->set_name("m" + S(i)); m->set_input_type("." + pkg + "." + mt); m->set_output_type("." + pkg + "." + mt); }
    const google::protobuf::FileDescriptor* fd = pool.BuildFile(f);
    if (!fd) { fprintf(stderr, "descriptor\n"); exit(3); }
    return fd->service(0);
}
static void sums(const std::deque<Sec>& d, long n, Sec* o, long* used) {
    *used = 0; for (long k = 0; k < n && k + 1 < (long)d.size(); k++) { const Sec& x = d[d.size() - 2 - k]; o->sc += x.sc; o->st += x.st; o->sm = std::max(o->sm, x.sm); o->fc += x.fc; o->ft += x.ft; o->fm = std::max(o->fm, x.fm); ++*used; }
}
static const int64_t PERIODS[] = {INT64_MIN, -1, 0, 1, 2, 3, 59, 60, 61, 599, 600, 601, 602, 603, 1000, INT_MAX, (int64_t)INT_MAX + 1, (int64_t)INT_MAX + 2, (1LL << 32), (1LL << 32) + 1, (3LL << 31) + 5, INT64_MAX};
int main(int argc, char** argv) {
    init(); int rounds = argc > 1 ? atoi(argv[1]) : 2;
    for (int r = 0; r < rounds; r++) {
        gone = 0; ServicePool* sp = new ServicePool(NULL); map<string, Model> M; std::vector<string> names; int owned = 0, kept_gone = 0; std::vector<Svc*> mine;
        int nsvc = r == 0 ? 1500 : 3 + rnd(40), ticks = 0;
        static const char* pre[] = {"a", "a.b", "sofa.pbrpc.builtin", "zz", "B"};
        auto find = [&](const string& n) { Case(g_what); ServiceBoard* b = sp->FindService(n); auto it = M.find(n);
            if ((b != NULL) != (it != M.end())) fail("find", string(b ? "found" : "not found") + ": " + n);
            else if (b && (b->Service() != it->second.s || b->ServiceName() != n)) fail("find-other", "wrong board for " + n); };
        for (int step = 0; step < nsvc; step++) {
            string pkg = string(pre[rnd(5)]) + "r" + S(r), nm = "S" + S(rnd(4) ? step : rnd(step + 1)); string full = pkg + "." + nm;
            const google::protobuf::ServiceDescriptor* d; bool had = M.count(full);
            if (had) d = M[full].s->d; else { if (pool.FindServiceByName(full)) continue; d = describe(pkg, nm, rnd(4)); }
            if (rnd(3) == 0) find(full);
            Svc* s = new Svc(d); bool own = rnd(2); int g0 = gone; Case(g_what);
            bool ok = sp->RegisterService(s, own);
            if (ok == had) fail("register", string(ok ? "registered twice: " : "refused: ") + full);
            if (gone != g0) { fail("deleted-early", full); return done(); }
            if (ok) { Model m; m.s = s; m.m.resize(d->method_count(), std::deque<Sec>(1)); M[full] = m; names.push_back(full); if (own) owned++; else mine.push_back(s); } else { delete s; gone = g0; }
            find(full); if (!names.empty()) find(names[rnd(names.size())]);
            find(full + "x"); find(full.substr(0, full.size() - 1)); find(""); find(pkg); find(string("\0", 1) + full); find(full + string("\0", 1));
            if (sp->ServiceCount() != (int)M.size()) fail("count", S(sp->ServiceCount()) + " of " + S(M.size()));
        }
        for (size_t i = 0; i < names.size(); i++) find(names[i]);
        { std::list<ServiceBoard*> l; l.push_back(NULL); sp->ListService(&l); Case(g_what); auto it = M.begin(); bool good = l.size() == M.size();
          for (ServiceBoard* b : l) { if (!good) break; if (!b || b->Service() != it->second.s || b->ServiceName() != it->first) good = false; ++it; } if (!good) fail("list", "boards"); }
        { std::list<google::protobuf::Service*> l; sp->ListService(&l); Case(g_what); auto it = M.begin(); bool good = l.size() == M.size();
          for (auto* b : l) { if (!good) break; if (b != it->second.s) good = false; ++it; } if (!good) fail("list-services", "services"); }
        { builtin::ListServiceResponse rsp; sp->ListService(&rsp); Case(g_what); auto it = M.begin(); bool good = rsp.services_size() == (int)M.size();
          for (int i = 0; good && i < rsp.services_size(); i++, ++it) if (rsp.services(i) != it->first) good = false; if (!good) fail("list-response", "names");
          std::set<string> fs; for (int i = 0; i < rsp.files_size(); i++) if (!fs.insert(rsp.files(i).name()).second) fail("list-files", "twice " + rsp.files(i).name());
          for (auto& x : M) if (!fs.count(x.second.s->d->file()->name())) { fail("list-files", "missing " + x.second.s->d->file()->name()); break; } }
        int nticks = r == 0 ? 5 : (r % 2 ? 1250 : rnd(700));
        for (int t = 0; t < nticks; t++) {
            for (int k = rnd(4); k > 0; k--) { auto& n = names[rnd(names.size())]; auto& m = M[n]; if (m.m.empty()) continue; int id = rnd(m.m.size()); bool ok = rnd(2); int64_t us = rnd(3) ? rnd(1000) : (int64_t)rnd(1 << 30) * rnd(1000);
                sp->FindService(n)->ReportProcessEnd(id, ok, us); Sec& x = m.m[id].back(); if (ok) { x.sc++; x.st += us; x.sm = std::max(x.sm, us); } else { x.fc++; x.ft += us; x.fm = std::max(x.fm, us); } }
            if (t % (r == 0 ? 1 : 37) == 0 || t + 3 > nticks) for (int64_t p : PERIODS) {
                auto& n = names[rnd(names.size())]; auto& m = M[n]; builtin::ServiceStat o; o.set_succeed_count(77); Case(g_what);
                long want = p < 1 ? 1 : p > 600 ? 600 : p; g_what = "period " + S(p) + " after " + S(ticks) + " seconds"; Case(g_what);
                sp->FindService(n)->LatestStats(p, &o);
                if (o.service_name() != n || o.period_seconds() != want || o.method_stats_size() != (int)m.m.size()) { fail("stat-head", o.service_name() + " " + S(o.period_seconds()) + " for " + S(p)); continue; }
                Sec all; for (size_t i = 0; i < m.m.size(); i++) { Sec x; long used; sums(m.m[i], want, &x, &used); all.sc += x.sc; all.fc += x.fc; auto& y = o.method_stats(i);
                    if (y.method_name() != n + ".m" + S(i) || y.succeed_count() != x.sc || y.failed_count() != x.fc || (int64_t)y.succeed_max_time_us() != (int64_t)(float)x.sm && y.succeed_max_time_us() != x.sm || y.failed_max_time_us() != x.fm && (int64_t)y.failed_max_time_us() != (int64_t)(float)x.fm)
                        fail("stat", "method " + y.method_name() + " period " + S(p) + " after " + S(ticks) + ": " + S(y.succeed_count()) + "/" + S(x.sc) + " " + S(y.failed_count()) + "/" + S(x.fc));
                    float av = x.sc ? (float)x.st / x.sc : 0, fv = x.fc ? (float)x.ft / x.fc : 0;
                    if (std::abs(y.succeed_avg_time_us() - av) > 1e-3 * av + 1e-3 || std::abs(y.failed_avg_time_us() - fv) > 1e-3 * fv + 1e-3) fail("stat-avg", y.method_name());
                    if (used && y.slot_id() != ticks - used) fail("stat-start", S(y.slot_id()) + " after " + S(ticks)); }
                if (o.succeed_count() != all.sc || o.failed_count() != all.fc) fail("stat-sum", n); }
            sp->NextSlot(); ticks++; for (auto& x : M) for (auto& d : x.second.m) { d.push_back(Sec()); if (d.size() > 700) d.pop_front(); }
        }
        if (gone != kept_gone) fail("deleted-early", S(gone)); delete sp; Case(g_what); if (gone != owned) fail("deleted", S(gone) + " of " + S(owned)); for (Svc* s : mine) delete s;
    }
    return done();
}

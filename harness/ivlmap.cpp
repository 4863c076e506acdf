// Driver: interval_map, parse_interval_map.
#include "vp.hpp"
#include <iostream>
#include <sstream>
#include <string>
#include "anifem++/interval/interval_map.h"
using namespace Ani;
using vp::J;
typedef interval_map<long, long> M;
static long LO = -20, HI = 20;
static J state(const M& m) {
    J j = J::arr();
    for (auto it = m.begin(); it != m.end(); ++it) {
        J x = J::arr();
        x.push(it.is_left_infinite() ? LO : it->first.m_start).push(it.is_right_infinite() ? HI + 1 : it->first.m_end).push(it->second);
        j.push(x);
    }
    return j;
}
template <class It> static long num(It b, It it) { return (long)std::distance(b, it) + 1; }
int main(int argc, char** argv) {
    M m;
    return vp::run(argc, argv, [&](const J& op) -> J {
        const std::string& o = op["op"].S();
        if (o == "case") { m = M(); return J(); }
        J ev = op;
        if (o == "ins") {
            long s = op["s"].I(), e = op["e"].I(), v = op["v"].I();
            auto p = s == LO ? (e == HI + 1 ? m.insert(M::tag_inf, M::tag_inf, v) : m.insert(M::tag_inf, e, v)) : (e == HI + 1 ? m.insert(s, M::tag_inf, v) : m.insert(s, e, v));
            ev.set("r", p.second).set("st", state(m)).set("it", p.second ? num(m.begin(), p.first) : 0);
            return ev;
        }
        if (o == "qry") {
            long k = op["k"].I(); const M& c = m; J r = J::obj(), own = J::arr();
            long at = 0; try { at = m.at(k); } catch (const std::out_of_range&) { at = 0; }
            for (auto it = c.begin(); it != c.end(); ++it) own.push(it.contains(k));
            r.set("contains", m.contains(k)).set("count", m.count(k)).set("find", num(m.begin(), m.find(k))).set("cfind", num(c.begin(), c.find(k))).set("at", at).set("own", own)
             .set("lb", num(c.begin(), c.lower_bound(k))).set("ub", num(m.begin(), m.upper_bound(k))).set("size", m.size()).set("empty", m.empty());
            ev.set("r", r); return ev;
        }
        if (o == "clear") { m.clear(); ev.set("st", state(m)); return ev; }
        if (o == "round" || o == "parse") {
            ParseIvlMapTraits t(op["id"].S(), op["md"].S(), op["ed"].S(), op["ig"].S());
            std::string s;
            if (o == "round") { std::ostringstream os; m.print(os, t); s = os.str(); ev.set("text", s); ev.set("st", state(m)); }
            else s = op["text"].S();
            try {
                M p = o == "parse" && op["pos"].I() > 0 ? parse_interval_map<long, long>(s, op["pos"].I(), op["count"].I(), details::DefaultParser<long>(), details::DefaultParser<long>(), t)
                          : parse_interval_map<long, long>(s, 0, std::string::npos, details::DefaultParser<long>(), details::DefaultParser<long>(), t);
                ev.set("r", state(p));
            } catch (const std::exception&) { J x = J::arr(); ev.set("r", J::arr().push(x.push(0).push(0).push(0))); }
            return ev;
        }
        std::_Exit(3);
    });
}

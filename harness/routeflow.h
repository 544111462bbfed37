// random subscriptions and publishes on the real broker compared with what MQTT prescribes; shared by C08, C10, C11, C27, C30, C31, C36, C37
#pragma once
#include "broker.h"
struct RBad { std::string tag, what; };
// MQTT topic matching, level by level
static std::vector<std::string> rlevels(const std::string &s){ std::vector<std::string> r(1); for (char c : s) if (c == '/') r.emplace_back(); else r.back().push_back(c); return r; }
static bool rmatch(const std::string &filter, const std::string &topic)
{
    auto f = rlevels(filter), t = rlevels(topic); if (topic.size() && topic[0] == '$' && (f[0] == "#" || f[0] == "+")) return false;
    for (size_t i = 0; i < f.size(); i++) { if (f[i] == "#") return true; if (i >= t.size()) return false; if (f[i] != "+" && f[i] != t[i]) return false; } return f.size() == t.size();
}
struct RouteFlow
{
    struct Sub { int qos = 0; bool nl = false, rap = false; uint32_t id = 0; };
    struct Cl { std::string id; int pv = 4; std::shared_ptr<Client> c; uint16_t amax = 0; uint32_t maxpkt = 268435455; std::optional<std::string> group, lp, rp; bool bridge = false; std::map<uint16_t, std::string> in; std::set<uint16_t> known; std::map<uint16_t, std::string> out; std::map<std::string, Sub> subs; std::map<std::pair<std::string, std::string>, Sub> shared; uint16_t pid = 1; };
    struct Msg { std::string topic, payload; int qos = 0; bool retain = false; std::multimap<int, std::string> props; };
    struct Exp { size_t c; Sub s; };
    Broker b; std::vector<Cl> cl; std::string log; int n = 0; uint16_t inmax; std::string want; int dist;
    RouteFlow(const std::string &w, uint16_t inmax, int dist) : b([&](Settings &s){ s.maxIncomingTopicAliasValue = inmax; s.sharedSubscriptionTargeting = dist == 0 ? SharedSubscriptionTargeting::RoundRobin : dist == 1 ? SharedSubscriptionTargeting::SenderHash : SharedSubscriptionTargeting::First; }), inmax(inmax), want(w), dist(dist) { b.td->settingsLocalCopy.sharedSubscriptionTargeting = b.settings.sharedSubscriptionTargeting; }
    [[noreturn]] void bad(const std::string &t, const std::string &w){ throw RBad{t, w}; }
    void note(const std::string &s){ log += s + "; "; if (log.size() > 2600) log = "... " + log.substr(log.size() - 2200); g_case = log; }
    std::string word(){ static const char *w[] = {"a", "b", "", "aa", "x y", "A"}; return w[rnd(rnd(3) ? 2 : 6)]; }
    std::string topic(){ int k = 1 + rnd(4); std::string t; for (int i = 0; i < k; i++) { if (i) t += "/"; t += word(); } if (t.empty()) t = "a"; if (!rnd(25)) t += "/" + std::string(120 + rnd(15), 'l'); return t; }
    std::string filter(){ int k = 1 + rnd(4); std::string t; for (int i = 0; i < k; i++) { if (i) t += "/"; if (!rnd(4) && i == k - 1) { t += "#"; break; } t += rnd(3) ? word() : "+"; } return t.empty() ? "+" : t; }
    std::shared_ptr<Client> dial(Cl &x){ auto c = b.raw(); c->setClientProperties(PV(x.pv), x.id, x.group, "user", true, 60, x.maxpkt, x.amax); c->setAuthenticated(true); globals->subscriptionStore->registerClientAndKickExistingOne(c, true, 65535, 0); if (x.bridge) { auto s = c->getSession(); s->setLocalPrefix(x.lp); s->setRemotePrefix(x.rp); } return c; }
    void join(){ Cl x; x.id = "c" + std::to_string(cl.size()); x.pv = 3 + rnd(3); if (x.pv == 5) { if (!rnd(3)) x.amax = 1 + rnd(3); if (!rnd(4)) x.maxpkt = 20 + rnd(150); } if (!rnd(4)) x.group = "g" + std::to_string(rnd(2)); if ((want == "C37" || !rnd(8)) && rnd(3)) { x.bridge = true; if (rnd(2)) x.lp = rnd(2) ? "a/" : "loc/a/"; if (rnd(2)) x.rp = rnd(2) ? "b/" : "rem/"; }
        x.c = dial(x); note(x.id + ": version " + std::to_string(x.pv) + (x.amax ? ", aliases " + std::to_string(x.amax) : "") + (x.maxpkt < 1000 ? ", max packet " + std::to_string(x.maxpkt) : "") + (x.group ? ", group " + *x.group : "") + (x.lp ? ", local prefix " + *x.lp : "") + (x.rp ? ", remote prefix " + *x.rp : "")); cl.push_back(x); }
    std::vector<Pkt> take(Cl &x){ bool ok; std::string s = b.out(x.c); auto v = split_packets(s, ok); if (!ok) bad("C30", "the output of " + x.id + " is not a sequence of packets: " + hex(s)); for (auto &p : v) { size_t t = 1 + vbi(p.body.size()).size() + p.body.size(); if (t > x.maxpkt) bad("C31", "packet of " + std::to_string(t) + " bytes sent to " + x.id); } return v; }
    void send(Cl &x, const std::string &s){ try { b.feed(x.c, s); } catch (std::exception &e) { bad("any", std::string("refused: ") + e.what()); } }
    void subscribe()
    {
        size_t i = rnd(cl.size()); Cl &x = cl[i]; std::string f = filter(), share = !rnd(want == "C10" ? 2 : 5) ? "s" + std::to_string(rnd(2)) : ""; Sub s; s.qos = rnd(3); if (x.pv == 5) { s.nl = share.empty() && !rnd(3); s.rap = rnd(2); if (rnd(2)) s.id = 1 + rnd(rnd(2) ? 100 : 200000); }
        std::string full = share.empty() ? f : "$share/" + share + "/" + f, body = u16(++x.pid); if (x.pv == 5) { std::string p = s.id ? std::string("\x0b") + vbi(s.id) : ""; body += vbi(p.size()) + p; } body += mstr(full) + std::string(1, (char)(s.qos | s.nl << 2 | s.rap << 3 | (x.pv == 5 ? 2 << 4 : 0)));
        note(x.id + " subscribes " + full + " qos " + std::to_string(s.qos) + (s.nl ? " no-local" : "") + (s.rap ? " retain-as-published" : "") + (s.id ? " id " + std::to_string(s.id) : "")); send(x, mkpkt(8, 2, body)); auto v = take(x); if (v.size() != 1 || v[0].type != 9 || (uint8_t)v[0].body.back() != s.qos) { if (v.empty() && x.maxpkt < 30) return; bad("C30", "no proper SUBACK"); }
        if (share.empty()) x.subs[f] = s; else x.shared[{share, f}] = s;
    }
    void unsubscribe(){ Cl &x = cl[rnd(cl.size())]; std::string full; if (x.subs.size() && rnd(2)) { auto it = x.subs.begin(); std::advance(it, rnd(x.subs.size())); full = it->first; x.subs.erase(it); } else if (x.shared.size()) { auto it = x.shared.begin(); std::advance(it, rnd(x.shared.size())); full = "$share/" + it->first.first + "/" + it->first.second; x.shared.erase(it); } else return; note(x.id + " unsubscribes " + full); send(x, mkpkt(10, 2, u16(++x.pid) + (x.pv == 5 ? std::string(1, 0) : "") + mstr(full))); take(x); }
    void leave(){ size_t i = rnd(cl.size()); Cl &x = cl[i]; note(x.id + " reconnects with clean session"); b.td->priv->clients.by_fd.erase(x.c->getFd()); close(b.peer[x.c.get()]); b.peer.erase(x.c.get()); x.c.reset(); b.tasks(); x.subs.clear(); x.shared.clear(); x.in.clear(); x.known.clear(); x.out.clear(); if (rnd(2)) { globals->subscriptionStore->root->cleanSubscriptions(globals->subscriptionStore->deferredSubscriptionLeafsForPurging, globals->subscriptionStore->subscriptionDeferredCounter); } x.c = dial(x); }
    static std::string enc(const Msg &m, const std::string &t, int pv, int qos, bool retain, uint32_t subid, uint16_t alias, uint16_t id){ std::string body = mstr(t); if (qos) body += u16(id); if (pv >= 5) { std::string p; for (auto &x : m.props) { p.push_back(x.first); if (x.first == 3 || x.first == 8 || x.first == 9) p += mstr(x.second); else p += x.second; } if (alias) p += std::string("\x23") + u16(alias); if (subid) p += std::string("\x0b") + vbi(subid); body += vbi(p.size()) + p; } return mkpkt(3, qos << 1 | retain, body + m.payload); }
    void publish()
    {
        size_t pi = rnd(cl.size()); Cl &x = cl[pi]; Msg m; m.topic = topic(); m.qos = rnd(3); m.retain = !rnd(4); m.payload = "m" + std::to_string(++n) + std::string(rnd(3) ? 0 : rnd(160), 'p'); if (!rnd(20)) m.payload += std::string(16200 + rnd(300), 'q'); std::string sent = m.topic; if (m.retain) { m.retain = false; } bool keep = !rnd(4);
        if (x.pv == 5) { if (!rnd(3)) m.props.emplace(1, std::string(1, 1)); if (!rnd(3)) m.props.emplace(2, u32(1000 + rnd(100000))); if (!rnd(3)) m.props.emplace(3, "type"); if (!rnd(3)) m.props.emplace(8, "resp/t"); if (!rnd(3)) m.props.emplace(9, std::string("corr\0x", 6)); int k = rnd(3) ? 0 : rnd(3); for (int i = 0; i < k; i++) m.props.emplace(38, mstr("key") + mstr("v" + std::to_string(rnd(100)))); }
        m.retain = keep; uint16_t alias = 0; bool invalid = false; std::string real = m.topic; if (x.pv == 5 && !rnd(want == "C27" ? 2 : 5)) { alias = 1 + rnd(std::min<int>(inmax, 3) + 1); if (!rnd(30)) alias = 0xffff; if (rnd(2)) { sent = ""; if (!x.known.count(alias)) invalid = true; else real = x.out[alias]; } else { if (alias > inmax) invalid = true; else x.known.insert(alias), x.out[alias] = m.topic; } }
        // prefixes of a bridge on its incoming side
        std::string t = real; if (x.rp && t.rfind(*x.rp, 0) == 0 && t.size() > x.rp->size()) t = t.substr(x.rp->size()); if (x.lp) t = *x.lp + t;
        note(x.id + " publishes '" + sent + "'" + (alias ? " alias " + std::to_string(alias) : "") + " qos " + std::to_string(m.qos) + (m.retain ? " retain" : "") + " " + m.payload.substr(0, 8) + "(" + std::to_string(m.payload.size()) + ")" + (m.props.size() ? " " + std::to_string(m.props.size()) + " properties" : "")); uint16_t id = ++x.pid; if (!id) id = ++x.pid;
        std::string pk = enc(m, sent, x.pv, m.qos, m.retain, 0, alias, id); if (m.qos && !rnd(4)) pk[0] |= 8;
        if (invalid) { bool thrown = false; try { b.feed(x.c, pk); } catch (ProtocolError &) { thrown = true; } if (!thrown) bad("C27", "alias " + std::to_string(alias) + " accepted"); x.c->setDisconnectReason("x"); size_t save = pi; (void)save; b.td->priv->clients.by_fd.erase(x.c->getFd()); close(b.peer[x.c.get()]); b.peer.erase(x.c.get()); x.c.reset(); b.tasks(); x.subs.clear(); x.shared.clear(); x.in.clear(); x.known.clear(); x.out.clear(); x.c = dial(x); check(m, "", pi, true); return; }
        send(x, pk); if (m.qos == 2) send(x, mkpkt(6, 2, u16(id))); check(m, t, pi, false); globals->subscriptionStore->retainedMessagesRoot->children.clear();
    }
    // every client's output against the expectation
    void check(const Msg &m, const std::string &t, size_t pi, bool none)
    {
        std::vector<std::vector<Pub>> got(cl.size()); for (size_t i = 0; i < cl.size(); i++) { Cl &x = cl[i]; for (auto &p : take(x)) { if (p.type != 3) continue; Pub r = parse_publish(p, x.pv); if (!r.ok) bad("C30", "malformed PUBLISH sent to " + x.id + ": " + hex(p.body.substr(0, 100))); if ((r.qos > 0) != (r.id > 0)) bad("C30", "packet identifier does not fit the QoS"); if (r.dup) bad("C11", "first delivery marked as duplicate"); if (r.topic.empty() && !r.has(35)) bad("C30", "no topic");
            if (r.has(35)) { uint16_t a = r.num(35); if (!a || a > x.amax) bad("C27", "alias " + std::to_string(a) + " sent to " + x.id); if (r.topic.empty()) { if (!x.in.count(a)) bad("C27", "alias " + std::to_string(a) + " used before it was introduced"); r.topic = x.in[a]; } else { x.in[a] = r.topic; } }
            got[i].push_back(r); if (r.qos == 1) send(x, mkpkt(4, 0, u16(r.id))); if (r.qos == 2) { send(x, mkpkt(5, 0, u16(r.id))); send(x, mkpkt(7, 0, u16(r.id))); } } take(x); }
        if (none) { for (size_t i = 0; i < cl.size(); i++) if (got[i].size()) bad("C27", "message with an invalid alias delivered"); return; }
        auto fits = [&](const Cl &x, const Sub &s, const Pub &r, std::string &why, std::string &tag){ tag = "C11"; int q = std::min(m.qos, s.qos); std::string ot = outtopic(x, t); if (r.topic != ot) { why = "topic '" + r.topic + "' instead of '" + ot + "'"; tag = x.lp || x.rp ? "C37" : r.has(35) ? "C27" : "C11"; return false; } if (r.payload != m.payload) { why = "other payload"; return false; } if (r.qos != q) { why = "QoS " + std::to_string(r.qos) + " instead of " + std::to_string(q); return false; } if (r.retain != (s.rap && m.retain)) { why = "wrong retain flag"; return false; }
            if (x.pv == 5) { if (r.num(11) != s.id) { why = "subscription identifier " + std::to_string(r.num(11)) + " instead of " + std::to_string(s.id); return false; } auto a = r.props, w = m.props; a.erase(11); a.erase(35); if (w.count(2) && a.count(2)) { uint64_t g = 0, h = 0; for (unsigned char c : a.find(2)->second) g = g << 8 | c; for (unsigned char c : w.find(2)->second) h = h << 8 | c; if (g > h || h - g > 20) { why = "expiry " + std::to_string(g) + " instead of " + std::to_string(h); return false; } a.erase(2); w.erase(2); } if (a != w) { why = "properties differ"; return false; } } return true; };
        // the copies each client must get, and for each matching group the possible members
        std::vector<std::vector<Sub>> exp(cl.size()); std::map<std::pair<std::string, std::string>, std::vector<std::pair<size_t, Sub>>> grp; const Cl &pc = cl[pi];
        for (size_t i = 0; i < cl.size(); i++) { for (auto &s : cl[i].subs) if (rmatch(s.first, t)) { if (s.second.nl && i == pi) continue; if (cl[i].group && pc.group && *cl[i].group == *pc.group) continue; exp[i].push_back(s.second); } for (auto &s : cl[i].shared) if (rmatch(s.first.second, t)) grp[s.first].push_back({i, s.second}); }
        for (size_t i = 0; i < cl.size(); i++) for (auto &s : exp[i]) { std::string why, tag, w2; bool ok = false; for (auto k = got[i].begin(); k != got[i].end(); k++) if (fits(cl[i], s, *k, why, tag)) { got[i].erase(k); ok = true; break; } if (ok) continue; if (toobig(cl[i], m, t, s)) continue; if (got[i].size() && grp.empty()) bad(tag, cl[i].id + ": " + why); bad(cl[i].group ? "C36" : "C08", cl[i].id + " did not get the message " + (why.empty() ? "" : "(" + why + ")")); }
        // one member of each group, chosen so that all copies are explained
        std::vector<std::pair<std::pair<std::string, std::string>, std::vector<std::pair<size_t, Sub>>>> gs(grp.begin(), grp.end()); std::string gwhy, gtag = "C10"; size_t deepest = 0; auto before = got;
        std::function<bool(size_t, bool)> pick = [&](size_t k, bool all){ if (k == gs.size()) { if (all) for (auto &v : got) if (v.size()) return false; return true; } deepest = std::max(deepest, k); bool maybe = false; for (auto &mm : gs[k].second) { if (cl[mm.first].group && pc.group && *cl[mm.first].group == *pc.group) { maybe = true; continue; } if (toobig(cl[mm.first], m, t, mm.second)) maybe = true; auto &v = got[mm.first]; for (size_t i = 0; i < v.size(); i++) { std::string why, tag; if (!fits(cl[mm.first], mm.second, v[i], why, tag)) { gwhy = why; gtag = tag; continue; } Pub s = v[i]; v.erase(v.begin() + i); if (pick(k + 1, all)) return true; v.insert(v.begin() + i, s); } } return maybe && pick(k + 1, all); };
        if (gs.size() && !pick(0, true)) { got = before; size_t nn = 0; for (auto &v : got) nn += v.size(); if (nn >= gs.size() && gwhy.size() && gtag != "C10") bad(gtag, "shared copy: " + gwhy); bad("C10", std::to_string(nn) + " shared copies for " + std::to_string(gs.size()) + " groups with members, e.g. $share/" + gs[std::min(deepest, gs.size() - 1)].first.first + "/" + gs[std::min(deepest, gs.size() - 1)].first.second); }
        for (size_t i = 0; i < cl.size(); i++) if (got[i].size()) { bool nl = false; for (auto &s : cl[i].subs) nl |= rmatch(s.first, t) && ((s.second.nl && i == pi) || (cl[i].group && pc.group && *cl[i].group == *pc.group)); bad(nl ? "C36" : grp.size() ? "C10" : "C08", cl[i].id + " got the message " + std::to_string(got[i].size()) + " time(s) too often"); }
    }
    static std::string outtopic(const Cl &x, const std::string &t){ std::string o = t; if (x.lp && o.rfind(*x.lp, 0) == 0 && o.size() > x.lp->size()) o = o.substr(x.lp->size()); if (x.rp) o = *x.rp + o; return o; }
    bool toobig(const Cl &x, const Msg &m, const std::string &t, const Sub &s){ return enc(m, outtopic(x, t), x.pv, std::min(m.qos, s.qos), false, s.id, x.amax, 1).size() > x.maxpkt; }
    void run(int steps){ int k = 2 + rnd(4); for (int i = 0; i < k; i++) join(); for (int i = 0; i < steps; i++) { int w = rnd(20); if (w < 6) subscribe(); else if (w < 8) unsubscribe(); else if (w == 8 && cl.size() < 8) join(); else if (w == 9) leave(); else publish(); } }
};
static void route(const std::string &tag, int steps){ RouteFlow f(tag, rnd(4) ? 3 : 0, rnd(3)); try { f.run(steps); } catch (RBad &x) { if (x.tag == tag || getenv("FVC_ALLTAGS")) FAIL(x.tag + ": " + x.what); } }

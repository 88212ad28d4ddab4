// P38: handlers that programs register for types of detectors.
#include "gen.h"
#include "gearxml/CalorimeterParametersXML.h"
#include "gearxml/FTDParametersXML.h"
#include "gearxml/GearParametersXML.h"
#include "gearxml/SiPlanesParametersXML.h"
#include "gearxml/TPCParametersXML.h"
#include "gearxml/TrackerPlanesParametersXML.h"
#include "gearxml/XMLHandlerMgr.h"
#include "gearxml/ZPlanarParametersXML.h"
#include "gearxml/tinyxml.h"
#include <unistd.h>
using namespace gen;

// what the library does to a handler
struct Log { std::vector<std::string> calls; std::map<int, int> destroyed; };
static Log L;
struct Refused { int who; };
struct Mine : gear::XMLHandler {
  int id, mode; Mine(int i, int m) : id(i), mode(m) {} virtual ~Mine() { ++L.destroyed[id]; }
  gear::TiXmlElement toXML(const gear::GearParameters&) const { return gear::TiXmlElement("detector"); }
  gear::GearParameters* fromXML(const gear::TiXmlElement* e, gear::GearMgr* mgr) const {
    std::string s = fmt("%d", id); for (const gear::TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next()) s += std::string("|") + a->Name() + "=" + a->Value(); int n = 0; for (const gear::TiXmlNode* k = e->FirstChild(); k; k = k->NextSibling()) ++n; s += fmt("#%d", n); L.calls.push_back(s);
    if (mode == 1) throw Refused{id}; if (mode == 2) throw gear::ParseException("mine"); if (mode == 3) throw std::runtime_error("mine"); if (mode == 4) return 0;
    auto* p = new gear::GearParametersImpl; p->setIntVal("handler", id); p->setStringVal("element", s); std::string nm = e->Attribute("name"); mgr->setGearParameters(nm, p); return p;
  }
};
static const char* const OWN[] = {"GearParameters", "TPCParameters", "CalorimeterParameters", "ZPlanarParameters", "FTDParameters", "TrackerPlanesParameters", "SiPlanesParameters"};
static gear::XMLHandler* own(const std::string& t) {
  if (t == OWN[0]) return new gear::GearParametersXML; if (t == OWN[1]) return new gear::TPCParametersXML; if (t == OWN[2]) return new gear::CalorimeterParametersXML; if (t == OWN[3]) return new gear::ZPlanarParametersXML;
  if (t == OWN[4]) return new gear::FTDParametersXML; if (t == OWN[5]) return new gear::TrackerPlanesParametersXML; return new gear::SiPlanesParametersXML;
}
static int next = 0;
static void handlers(Ctx& c) {
  Rng& r = c.rng; gear::XMLHandlerMgr* M = gear::XMLHandlerMgr::instance(); c.chk(M && M == gear::XMLHandlerMgr::instance(), "one-manager"); bool lower = r.chance(.5); auto* low = new Mine(++next, 0); M->setHandler("gearparameters", low); L.calls.clear(); L.destroyed.clear();
  std::vector<std::string> types(OWN, OWN + 7); for (int i = r.range(1, 5); i > 0; --i) types.push_back(fmt("My%d%s_%ld", i, r.chance(.3) ? "Parameters" : "", c.idx)); types.push_back(lower ? "gearparameters" : fmt("\xC3\xA4 & <%ld>", c.idx));
  std::map<std::string, const gear::XMLHandler*> model; std::map<std::string, int> who; std::map<int, int> modes; std::map<int, int> gone; std::string sig; if (lower) { model["gearparameters"] = low; who["gearparameters"] = low->id; }
  for (auto* t : OWN) { model[t] = M->getHandler(t); c.chk(model[t] != 0, "own-handler", "%s", t); }
  auto verify = [&](const char* when) {
    for (auto& t : types) { const gear::XMLHandler* h = M->getHandler(t); const gear::XMLHandler* w = model.count(t) ? model[t] : 0; c.chk(h == w, std::string("handler-") + when, "type '%s'", t.c_str()); }
    c.chk(M->getHandler("") == 0 && M->getHandler("GearParameter") == 0 && M->getHandler("GearParametersX") == 0, "unknown-type"); c.chk(L.destroyed == gone, std::string("lifetime-") + when, "%zu handlers destroyed, want %zu", L.destroyed.size(), gone.size()); };
  auto drop = [&](const std::string& t) { auto it = who.find(t); if (it == who.end()) return; int id = it->second; who.erase(it); for (auto& k : who) if (k.second == id) return; gone[id] = 1; };
  int N = r.range(1, 12); static const std::vector<std::string> kinds = {"GearParameters", "CalorimeterParameters", "VXDParameters", "ZPlanarParameters"};
  for (int i = 0; i < N; ++i) {
    std::string t = r.pick(types); int op = r.range(0, 9);
    if (op < 1) { M->setHandler(t, 0); sig += '0'; verify("null"); continue; }
    if (op < 5) { int mode = r.chance(.75) ? 0 : r.range(1, 4); auto* h = new Mine(++next, mode); modes[h->id] = mode; drop(t); M->setHandler(t, h); model[t] = h; who[t] = h->id; sig += mode ? 's' : 'S'; verify("set"); c.ev("handlers-registered"); continue; }
    if (op < 6) { std::string o = OWN[r.range(0, 6)]; drop(o); M->setHandler(o, own(o)); model[o] = M->getHandler(o); c.chk(model[o] != 0, "own-back"); sig += 'o'; verify("own-back"); continue; }
    if (op < 7 && r.chance(.6)) {    // a handler is registered once more: for its own type or for another one
      if (who.empty()) continue; auto k = std::next(who.begin(), r.range(0, who.size() - 1)); int id = k->second; const gear::XMLHandler* h = model[k->first]; if (r.chance(.4)) t = k->first;
      if (t == k->first || !(who.count(t) && who[t] == id)) { if (t != k->first) { drop(t); who[t] = id; model[t] = h; } M->setHandler(t, const_cast<gear::XMLHandler*>(h)); sig += 'a'; c.ev("registered-again"); verify("again"); }
      continue;
    }
    // a file with detectors of all types
    X dets("detectors"); std::vector<std::string> want; std::string stop; struct Seen { int id, val; }; std::map<std::string, Seen> facts; int n = r.range(0, 8); bool vxdRead = false, caloRead = false; double caloR = 0;
    for (int k = 0; k < n; ++k) {
      std::string nm = r.chance(.2) ? "twin" : fmt("d%d", k); std::string ty = r.chance(.5) ? r.pick(kinds) : r.pick(types); bool none = r.chance(.06), bad = r.chance(.03); if (bad) ty = r.chance(.5) ? "Unheard" : ty + "_"; X d("detector"); int val = r.range(-99, 99);
      std::string real = ty == "VXDParameters" ? "ZPlanarParameters" : ty; bool mine = who.count(real) && !none; if (real == OWN[2] && !mine) nm = "EcalBarrel"; if (real == OWN[3] && !mine) nm = "VXD"; if (mine && r.chance(.2)) nm = "EcalBarrel";
      d.at("name", nm); if (!none) d.at("geartype", ty); if (mine && r.chance(.5)) d.at("extra", val);
      // what only the handlers of the library can read; those of the program do not care
      if (real == OWN[2]) { double R = padgen::r6(r.uni(10, 100)); d.add(X("layout").at("type", "Barrel").at("symmetry", 8).at("phi0", 0.)).add(X("dimensions").at("inner_r", R).at("outer_z", 100.)).add(X("layer").at("repeat", 2).at("thickness", 1.).at("cellSize0", 1.).at("cellSize1", 1.).at("absorberThickness", .5)); if (!none && !mine && stop.empty()) { caloRead = true; caloR = R; } }
      else if (real == OWN[3]) { d.add(X("vxdType").at("technology", "CCD")).add(X("shell").at("halfLength", 10.).at("innerRadius", 5.).at("outerRadius", 6.).at("radLength", 3.).at("gap", 0.)).add(X("layers")); if (!none && !mine && stop.empty()) vxdRead = true; }
      else if (real == OWN[0] || !model.count(real) || mine) d.add(X("parameter").at("name", "val").at("type", "int").at("value", val));
      else if (!none && !mine) { continue; }   // the other types of the library have their own checks
      dets.add(d); if (!stop.empty()) continue; if (none) continue;
      if (!model.count(real)) { stop = "gear::ParseException"; continue; }
      if (mine) { int id = who[real]; std::string s = fmt("%d", id); for (auto& a : d.a) s += "|" + a.first + "=" + a.second; s += fmt("#%d", (int)d.c.size()); want.push_back(s); if (modes[id] == 1) stop = "unknown"; else if (modes[id] == 2) stop = "gear::ParseException"; else if (modes[id] == 3) stop = "std::exception:mine"; else if (modes[id] == 0) facts[nm] = {id, 0}; }
      else if (real == OWN[0]) facts[nm] = {0, val};
    }
    X doc("gear"); if (r.chance(.5)) doc.add(X("global").at("detectorName", "h")); doc.add(dets); std::string p = c.scratch + fmt("/handler_%ld.xml", c.idx), text; bool was = xt::extraElements; xt::extraElements = false; xt::render(text, doc, 0); xt::extraElements = was; xt::writeFile(p, text);
    L.calls.clear(); std::unique_ptr<gear::GearMgr> m; std::string ex; ex = thrown([&] { gear::GearXML x(p); m.reset(x.createGearMgr()); }); unlink(p.c_str());
    std::string a, b; for (auto& s : L.calls) a += s + "\n"; for (auto& s : want) b += s + "\n"; c.describe = text; c.eq(a, b, "calls"); c.ev("detectors-handed-over", want.size());
    if (!stop.empty()) { c.chk(ex == stop, "error", "'%s', want '%s'", ex.c_str(), stop.c_str()); sig += 'x'; verify("error"); continue; }
    if (c.chk(ex.empty() && m, "read", "%s\n%s", ex.c_str(), text.c_str())) {
      c.eqi(m->getGearParameterKeys().size(), facts.size(), "parameters"); for (auto& k : facts) { int got = -1000; std::string e = thrown([&] { got = m->getGearParameters(k.first).getIntVal(k.second.id ? "handler" : "val"); }); c.chk(e.empty() && got == (k.second.id ? k.second.id : k.second.val), "result", "%s: %d %s", k.first.c_str(), got, e.c_str()); }
      bool has = thrown([&] { m->getVXDParameters(); }).empty(); c.chk(has == vxdRead, "vxd", "%d", has); has = thrown([&] { m->getEcalBarrelParameters(); }).empty(); c.chk(has == caloRead, "calorimeter", "%d", has); if (has && caloRead) c.near(m->getEcalBarrelParameters().getExtent()[0], caloR, 1e-9, "calorimeter-radius"); }
    sig += 'r'; verify("read");
  }
  for (auto* t : OWN) if (who.count(t)) { drop(t); M->setHandler(t, own(t)); model[t] = M->getHandler(t); }
  verify("end"); c.state(sig + fmt("%d", (int)types.size()));
}
MON_WORKLOAD_F("P38", "handlers", handlers, 60000, 600000, LEAKCHECK)

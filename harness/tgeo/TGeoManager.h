// A stand-in for the part of ROOT's geometry package that src/geartgeo uses: boxes and spheres, placed in one another
// with translations and rotations, and a navigator that follows the description of TGeoManager/TGeoNavigator:
// FindNextBoundaryAndStep() goes to the next boundary or by the maximum step, leaves the point on the boundary and the
// current node behind it, and returns no node when it leaves the world.  Faults: a step that does not get anywhere
// until the point is set anew (the "infinite loop in root" the code guards against).
#ifndef MOCK_TGEO_H
#define MOCK_TGEO_H
#include <cmath>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
typedef double Double_t; typedef int Int_t; typedef bool Bool_t; typedef const char* Option_t; typedef float Float_t; typedef char Char_t; typedef unsigned int UInt_t; typedef long Long_t;
#ifndef kTRUE
#define kTRUE true
#define kFALSE false
#endif
class TGeoManager; class TGeoNode; class TGeoVolume;
class TObject { public: virtual ~TObject() {} };
class TNamed : public TObject { public: std::string fName, fTitle; TNamed(const std::string& n = "") : fName(n) {} const char* GetName() const { return fName.c_str(); } const char* GetTitle() const { return fTitle.c_str(); } };
class TGeoMaterial : public TNamed { public: double dens, temp, pres, rad, inl, a = 1, z = 1;
  TGeoMaterial(const std::string& n, double d, double t, double p, double r, double i) : TNamed(n), dens(d), temp(t), pres(p), rad(r), inl(i) {}
  Double_t GetDensity() const { return dens; } Double_t GetTemperature() const { return temp; } Double_t GetPressure() const { return pres; } Double_t GetRadLen() const { return rad; } Double_t GetIntLen() const { return inl; } Double_t GetA() const { return a; } Double_t GetZ() const { return z; } };
class TGeoMedium : public TNamed { public: TGeoMaterial* mat; TGeoMedium(const std::string& n, TGeoMaterial* m) : TNamed(n), mat(m) {} TGeoMaterial* GetMaterial() const { return mat; } };
struct TGeoShape { bool sphere; double h[3];   // half lengths, or the radius
  bool Contains(const double* p) const { if (sphere) return p[0] * p[0] + p[1] * p[1] + p[2] * p[2] <= h[0] * h[0]; return std::fabs(p[0]) <= h[0] && std::fabs(p[1]) <= h[1] && std::fabs(p[2]) <= h[2]; }
  bool Line(const double* p, const double* d, double& t0, double& t1) const {   // the part of a line inside
    if (sphere) { double b = 0, c = -h[0] * h[0]; for (int i = 0; i < 3; ++i) { b += p[i] * d[i]; c += p[i] * p[i]; } double D = b * b - c; if (D <= 0) return false; t0 = -b - std::sqrt(D); t1 = -b + std::sqrt(D); return true; }
    t0 = -1e300; t1 = 1e300;
    for (int i = 0; i < 3; ++i) { if (d[i] == 0) { if (std::fabs(p[i]) > h[i]) return false; continue; } double u = (-h[i] - p[i]) / d[i], v = (h[i] - p[i]) / d[i]; if (u > v) std::swap(u, v); t0 = std::max(t0, u); t1 = std::min(t1, v); }
    return t0 < t1; } };
class TGeoVolume : public TNamed { public: TGeoMedium* med; TGeoShape shape; std::vector<TGeoNode*> nodes; TGeoManager* mgr = nullptr;
  TGeoVolume(const std::string& n, TGeoMedium* m, const TGeoShape& s) : TNamed(n), med(m), shape(s) {}
  TGeoMedium* GetMedium() const { return med; } TGeoMaterial* GetMaterial() const { return med->mat; } Int_t GetNdaughters() const { return nodes.size(); } TGeoNode* GetNode(Int_t i) const { return nodes[i]; } TGeoManager* GetGeoManager() const { return mgr; } Bool_t Contains(const Double_t* p) const { return shape.Contains(p); } };
class TGeoNode : public TNamed { public: TGeoVolume* vol; TGeoVolume* mother; double tr[3], rot[3][3];
  TGeoNode(const std::string& n, TGeoVolume* v, TGeoVolume* m) : TNamed(n), vol(v), mother(m) { for (int i = 0; i < 3; ++i) { tr[i] = 0; for (int j = 0; j < 3; ++j) rot[i][j] = i == j; } }
  TGeoVolume* GetVolume() const { return vol; } TGeoVolume* GetMotherVolume() const { return mother; } TGeoMedium* GetMedium() const { return vol->med; } Int_t GetNdaughters() const { return vol->nodes.size(); } TGeoNode* GetDaughter(Int_t i) const { return vol->nodes[i]; } Int_t GetNumber() const { return 0; }
  void MasterToLocal(const Double_t* m, Double_t* l) const { for (int i = 0; i < 3; ++i) { double s = 0; for (int j = 0; j < 3; ++j) s += rot[j][i] * (m[j] - tr[j]); l[i] = s; } }
  void LocalToMaster(const Double_t* l, Double_t* m) const { for (int i = 0; i < 3; ++i) { double s = tr[i]; for (int j = 0; j < 3; ++j) s += rot[i][j] * l[j]; m[i] = s; } }
  void VectorToLocal(const Double_t* m, Double_t* l) const { for (int i = 0; i < 3; ++i) { double s = 0; for (int j = 0; j < 3; ++j) s += rot[j][i] * m[j]; l[i] = s; } } };
class TVirtualGeoTrack : public TObject { public: std::vector<double> pts; Int_t id; TVirtualGeoTrack(Int_t i) : id(i) {} void AddPoint(Double_t x, Double_t y, Double_t z, Double_t t) { pts.insert(pts.end(), {x, y, z, t}); } Int_t GetNpoints() const { return pts.size() / 4; } Int_t GetId() const { return id; } };
class TGeoManager : public TNamed { public:
  std::vector<std::unique_ptr<TGeoMaterial>> mats; std::vector<std::unique_ptr<TGeoMedium>> meds; std::vector<std::unique_ptr<TGeoVolume>> vols; std::vector<std::unique_ptr<TGeoNode>> nodes;
  TGeoVolume* top = nullptr; TGeoNode* topNode = nullptr; bool closed = false;
  std::vector<TGeoNode*> path; double pt[3] = {0, 0, 0}, last[3] = {0, 0, 0}, dir[3] = {0, 0, 1}, step = 0; bool outside = false, onBoundary = false;
  std::vector<std::unique_ptr<TVirtualGeoTrack>> tracks; size_t maxTracks = 0; long steps = 0, stuckSteps = 0;
  long stuckEvery = 0, crossings = 0; bool stuck = false; double stuckStep = 1e-10; long runaway = 0;
  TGeoManager(const char* n = "", const char* = "") : TNamed(n) {}
  // geometry
  TGeoVolume* GetTopVolume() const { return top; } TGeoNode* GetTopNode() const { return topNode; } TGeoVolume* GetMasterVolume() const { return top; }
  void SetTopVolume(TGeoVolume* v) { if (top == v && topNode) return; top = v; nodes.emplace_back(new TGeoNode(v->fName + "_1", v, nullptr)); topNode = nodes.back().get(); path.assign(1, topNode); }
  void CloseGeometry(Option_t = "d") { closed = true; } Bool_t IsClosed() const { return closed; }
  // tracks
  Int_t AddTrack(Int_t id, Int_t, TObject* = nullptr) { tracks.emplace_back(new TVirtualGeoTrack(id)); maxTracks = std::max(maxTracks, tracks.size()); return tracks.size() - 1; }
  TVirtualGeoTrack* GetLastTrack() { return tracks.empty() ? nullptr : tracks.back().get(); } TVirtualGeoTrack* GetTrack(Int_t i) { return i < (int)tracks.size() ? tracks[i].get() : nullptr; } Int_t GetNtracks() const { return tracks.size(); }
  void ClearTracks() { tracks.clear(); } void CleanGarbage() {}
  // navigation
  void SetCurrentPoint(Double_t x, Double_t y, Double_t z) { pt[0] = x; pt[1] = y; pt[2] = z; stuck = false; } void SetCurrentPoint(const Double_t* p) { SetCurrentPoint(p[0], p[1], p[2]); }
  void SetCurrentDirection(Double_t x, Double_t y, Double_t z) { dir[0] = x; dir[1] = y; dir[2] = z; } void SetCurrentDirection(const Double_t* d) { SetCurrentDirection(d[0], d[1], d[2]); }
  const Double_t* GetCurrentPoint() const { return pt; } const Double_t* GetLastPoint() const { return last; } const Double_t* GetCurrentDirection() const { return dir; } Double_t GetStep() const { return step; } void SetStep(Double_t s) { step = s; }
  Bool_t IsOutside() const { return outside; } Bool_t IsOnBoundary() const { return onBoundary; } Int_t GetLevel() const { return path.size() - 1; }
  TGeoNode* GetCurrentNode() const { return path.back(); } TGeoVolume* GetCurrentVolume() const { return path.back()->vol; } TGeoNode* GetMother(Int_t up = 1) const { return (int)path.size() > up ? path[path.size() - 1 - up] : nullptr; }
  void CdUp() { if (path.size() > 1) path.pop_back(); } void CdTop() { path.assign(1, topNode); }
  const char* GetPath() const { thread_local std::string s; s.clear(); for (auto* n : path) s += "/" + n->fName; return s.c_str(); }
  void MasterToLocal(const Double_t* m, Double_t* l) const { double a[3] = {m[0], m[1], m[2]}, b[3]; for (auto* n : path) { n->MasterToLocal(a, b); for (int i = 0; i < 3; ++i) a[i] = b[i]; } for (int i = 0; i < 3; ++i) l[i] = a[i]; }
  void LocalToMaster(const Double_t* l, Double_t* m) const { double a[3] = {l[0], l[1], l[2]}, b[3]; for (size_t k = path.size(); k-- > 0;) { path[k]->LocalToMaster(a, b); for (int i = 0; i < 3; ++i) a[i] = b[i]; } for (int i = 0; i < 3; ++i) m[i] = a[i]; }
  TGeoNode* locate(const double* g) { path.assign(1, topNode); double l[3] = {g[0], g[1], g[2]}; if (!top->shape.Contains(l)) { outside = true; return nullptr; } outside = false;
    for (;;) { TGeoNode* in = nullptr; double q[3]; for (auto* n : path.back()->vol->nodes) { n->MasterToLocal(l, q); if (n->vol->shape.Contains(q)) { in = n; break; } } if (!in) return path.back(); path.push_back(in); for (int i = 0; i < 3; ++i) l[i] = q[i]; } }
  TGeoNode* FindNode(Bool_t = kTRUE) { onBoundary = false; for (int i = 0; i < 3; ++i) last[i] = pt[i]; return locate(pt); }
  TGeoNode* FindNode(Double_t x, Double_t y, Double_t z) { SetCurrentPoint(x, y, z); return FindNode(); }
  TGeoNode* InitTrack(const Double_t* p, const Double_t* d) { SetCurrentPoint(p); SetCurrentDirection(d); return FindNode(); }
  TGeoNode* InitTrack(Double_t x, Double_t y, Double_t z, Double_t nx, Double_t ny, Double_t nz) { SetCurrentPoint(x, y, z); SetCurrentDirection(nx, ny, nz); return FindNode(); }
  double nextDistance() const { double l[3] = {pt[0], pt[1], pt[2]}, d[3] = {dir[0], dir[1], dir[2]}, q[3], t0, t1, best = 1e300;
    for (auto* n : path) { n->MasterToLocal(l, q); for (int i = 0; i < 3; ++i) l[i] = q[i]; n->VectorToLocal(d, q); for (int i = 0; i < 3; ++i) d[i] = q[i]; }
    best = path.back()->vol->shape.Line(l, d, t0, t1) ? std::max(0., t1) : 0;
    for (auto* n : path.back()->vol->nodes) { double p[3], e[3]; n->MasterToLocal(l, p); n->VectorToLocal(d, e); if (n->vol->shape.Line(p, e, t0, t1) && t1 > 1e-9) best = std::min(best, std::max(0., t0)); }
    return best; }
  TGeoNode* FindNextBoundary(Double_t max = 1e30, const char* = "", Bool_t = kFALSE) { double d = nextDistance(); step = std::min(d, max); onBoundary = d < max; return path.back(); }
  TGeoNode* FindNextBoundaryAndStep(Double_t max = 1e30, Bool_t = kFALSE) {
    ++steps; if (++runaway > 200000) throw std::runtime_error("the tracking does not end"); for (int i = 0; i < 3; ++i) last[i] = pt[i];
    if (stuck) { ++stuckSteps; step = stuckStep; for (int i = 0; i < 3; ++i) pt[i] += step * dir[i]; return path.back(); }
    double d = nextDistance();
    if (d >= max) { step = max; for (int i = 0; i < 3; ++i) pt[i] += max * dir[i]; onBoundary = false; return path.back(); }
    step = d; double q[3]; for (int i = 0; i < 3; ++i) { pt[i] += d * dir[i]; q[i] = pt[i] + 1e-9 * dir[i]; } onBoundary = true;
    TGeoNode* n = locate(q); if (n && stuckEvery && ++crossings % stuckEvery == 0) stuck = true; return n; }
  TGeoNode* Step(Bool_t = kTRUE, Bool_t = kTRUE) { for (int i = 0; i < 3; ++i) { last[i] = pt[i]; pt[i] += step * dir[i]; } double q[3]; for (int i = 0; i < 3; ++i) q[i] = pt[i] + (onBoundary ? 1e-9 : 0) * dir[i]; return locate(q); }
  TGeoManager* GetCurrentNavigator() { return this; }
};
typedef TGeoManager TGeoNavigator;
extern TGeoManager* gGeoManager;
// "files" are entries of a table
class TGDMLParse { public: static std::map<std::string, TGeoVolume*>& files() { static std::map<std::string, TGeoVolume*> f; return f; } TGeoVolume* GDMLReadFile(const char* n) { auto i = files().find(n); return i == files().end() ? nullptr : i->second; } };
#endif

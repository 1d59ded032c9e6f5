#include "users.h"
namespace app {
SIM_TL i64 Probe::liveCount = 0;
SIM_TL u64 levelCalls[4][LEVELS] = {};
SIM_TL u64 levelWant[LEVELS] = {};
void seenKind(int k) {
  switch (k) {
    case 1: levelWant[0]++; levelWant[1]++; break;
    case 2: levelWant[0]++; levelWant[2]++; break;
    case 3: levelWant[0]++; levelWant[2]++; levelWant[3]++; break;
    case 4: levelWant[0]++; levelWant[4]++; break;
    case 5: levelWant[0]++; levelWant[9]++; break;
    case 6: levelWant[0]++; levelWant[2]++; levelWant[10]++; break;
    case 7: levelWant[0]++; levelWant[11]++; break;
    case 20: levelWant[12]++; levelWant[13]++; break;
    case 21: levelWant[12]++; levelWant[13]++; levelWant[14]++; break;
    case 10: levelWant[5]++; break;
    case 11: levelWant[5]++; levelWant[6]++; break;
    case 12: levelWant[5]++; levelWant[6]++; levelWant[7]++; break;
    case 13: levelWant[5]++; levelWant[8]++; break;
    default: sim::violation("bad-kind", "object of unknown dynamic type %d", k);
  }
}
#ifndef SIM_MODULES
std::unique_ptr<Shape> makeShape(Gen& g, int which) {
  std::unique_ptr<Shape> s;
  Deeper x(g);
  switch (which) {
    case 0: { auto p = std::make_unique<Circle>(); p->r = sim::make<double>(g); p->pts = sim::make<std::vector<int>>(g); s = std::move(p); break; }
    case 1: { auto p = std::make_unique<Poly>(); p->m = sim::make<std::map<int, std::string>>(g); s = std::move(p); break; }
    case 2: { auto p = std::make_unique<Square>(); p->m = sim::make<std::map<int, std::string>>(g); p->side = Probe(g.r.u()); p->q = g.r.u(); s = std::move(p); break; }
    case 4: s = makePartA(g); break;
    case 5: s = makePartB(g); break;
    case 6: s = makeMulti(g); break;
    default: { auto p = std::make_unique<Group>(); p->t = (u8)g.r.u(); if (g.depth < 5) p->inner = makeShape(g, (g.sz + g.depth) % SHAPES); s = std::move(p); break; }
  }
  s->id = (u32)g.r.u();
  s->label = sim::make<std::string>(g);
  return s;
}
std::unique_ptr<Node> makeNode(Gen& g, int which) {
  std::unique_ptr<Node> s;
  Deeper x(g);
  switch (which) {
    case 0: s = std::make_unique<Node>(); break;
    case 1: { auto p = std::make_unique<Leaf>(); p->tags = sim::make<std::vector<std::string>>(g); s = std::move(p); break; }
    case 2: { auto p = std::make_unique<HeavyLeaf>(); p->tags = sim::make<std::vector<std::string>>(g); p->pr = Probe(g.r.u()); for (auto& e : p->arr) e = g.r.u(); s = std::move(p); break; }
    case 3: { auto p = std::make_unique<TagLeaf>(1); p->x = sim::make<std::string>(g); s = std::move(p); break; }
    default: return nullptr;
  }
  s->n = sim::make<std::string>(g);
  s->w = sim::make<int>(g);
  return s;
}
#endif
} // namespace app

namespace sim {
static std::vector<ZooEntry>& pending() { static auto* v = new std::vector<ZooEntry>; return *v; }
std::vector<TypeOps>& zoo() { static auto* v = new std::vector<TypeOps>; return *v; }
void zooAdd(int order, TypeOps const& o) { pending().push_back({order, o}); pending().back().ops.id = order; }
void zooFreeze() {
  auto& p = pending();
  std::sort(p.begin(), p.end(), [](ZooEntry const& a, ZooEntry const& b) {
    return a.order != b.order ? a.order < b.order : strcmp(a.ops.name, b.ops.name) < 0;
  });
  for (auto& e : p) zoo().push_back(e.ops);
  p.clear();
}
TypeOps const& typeById(int id) {
  for (auto& t : zoo()) if (t.id == id) return t;
  harnessError("no type %d", id);
}
} // namespace sim

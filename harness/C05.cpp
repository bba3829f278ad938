#include "verif.h"
#include "Narsese/include/Connector.h"
#include "Narsese/include/Copula.h"
// OPT * init=1 search=3000
namespace CN = CONNECTOR; namespace CP = COPULA;
// Narsese: connector, spelling, commutative, reducible, temporal, least and greatest number of components (0: unlimited)
struct ConSpec { const char *name; CN::Connector v; const char *repr; bool comm, red, temp; unsigned lo, hi; };
static const ConSpec con[] = {
  {"Conjunction", CN::Conjunction, "&&", 1, 1, 0, 2, 0}, {"Disjunction", CN::Disjunction, "||", 1, 1, 0, 2, 0}, {"Product", CN::Product, "*", 0, 0, 0, 2, 0},
  {"ParallelEvents", CN::ParallelEvents, "&|", 1, 1, 1, 2, 0}, {"SequentialEvents", CN::SequentialEvents, "&/", 0, 1, 1, 2, 0},
  {"IntensionalIntersection", CN::IntensionalIntersection, "|", 1, 1, 0, 2, 0}, {"ExtensionalIntersection", CN::ExtensionalIntersection, "&", 1, 1, 0, 2, 0},
  {"ExtensionalDifference", CN::ExtensionalDifference, "-", 0, 0, 0, 2, 2}, {"IntensionalDifference", CN::IntensionalDifference, "~", 0, 0, 0, 2, 2},
  {"Negation", CN::Negation, "--", 0, 0, 0, 1, 1}, {"IntensionalSet", CN::IntensionalSet, "[", 1, 1, 0, 1, 0}, {"ExtensionalSet", CN::ExtensionalSet, "{", 1, 1, 0, 1, 0},
  {"IntensionalImage", CN::IntensionalImage, "\\", 0, 0, 0, 2, 0}, {"ExtensionalImage", CN::ExtensionalImage, "/", 0, 0, 0, 2, 0}, {"List", CN::List, "#", 0, 0, 0, 1, 0}};
static const int NCON = 15;
// copula, spelling, commutative, higher order, temporal, symmetric counterpart, reversed counterpart (None: there is none)
struct CopSpec { const char *name; CP::Copula v; const char *repr; bool comm, ho, temp; CP::Copula sym, rev; };
static const CopSpec cop[] = {
  {"Inheritance", CP::Inheritance, "-->", 0, 0, 0, CP::Similarity, CP::None}, {"Similarity", CP::Similarity, "<->", 1, 0, 0, CP::Similarity, CP::None},
  {"Instance", CP::Instance, "{--", 0, 0, 0, CP::None, CP::None}, {"Property", CP::Property, "--]", 0, 0, 0, CP::None, CP::None}, {"InstanceProperty", CP::InstanceProperty, "{-]", 0, 0, 0, CP::None, CP::None},
  {"Implication", CP::Implication, "==>", 0, 1, 0, CP::Equivalence, CP::None}, {"PredictiveImplication", CP::PredictiveImplication, "=/>", 0, 1, 1, CP::PredictiveEquivalence, CP::RetrospectiveImplication},
  {"ConcurrentImplication", CP::ConcurrentImplication, "=|>", 0, 1, 1, CP::ConcurrentEquivalence, CP::ConcurrentImplication}, {"RetrospectiveImplication", CP::RetrospectiveImplication, "=\\>", 0, 1, 1, CP::None, CP::PredictiveImplication},
  {"Equivalence", CP::Equivalence, "<=>", 1, 1, 0, CP::Equivalence, CP::None}, {"PredictiveEquivalence", CP::PredictiveEquivalence, "</>", 0, 1, 1, CP::PredictiveEquivalence, CP::None},
  {"ConcurrentEquivalence", CP::ConcurrentEquivalence, "<|>", 1, 1, 1, CP::ConcurrentEquivalence, CP::ConcurrentEquivalence}};
static const int NCOP = 12;
PROOF(connector_classes) {
  const ConSpec &s = con[nd_choice("connector", 0, NCON - 1)];
  CHECK(CN::is_commutative(s.v) == s.comm, "connector: commutative"); CHECK(CN::is_reducible(s.v) == s.red, "connector: reducible"); CHECK(CN::is_temporal(s.v) == s.temp, "connector: temporal");
  CHECK(CN::is_single_only(s.v) == (s.lo == 1 && s.hi == 1), "connector: exactly one component"); CHECK(CN::is_double_only(s.v) == (s.lo == 2 && s.hi == 2), "connector: exactly two components");
  CHECK(CN::is_multiple_only(s.v) == (s.lo == 2), "connector: more than one component"); CHECK(CN::Repr[s.v] == s.repr, "connector: spelling"); cover("end");
}
PROOF(connector_arity) {
  const ConSpec &s = con[nd_choice("connector", 0, NCON - 1)];
  unsigned n = (unsigned)nd_small("components", 0, 0xffffffffll, 0, 6);
  bool ok = n >= s.lo && (s.hi == 0 || n <= s.hi);
  CHECK(CN::check_valid(s.v, n) == ok, "connector accepts exactly the component counts it admits"); cover("end");
}
PROOF(connector_constants) {
  const CN::Connector k[] = {CN::CONJUNCTION, CN::DISJUNCTION, CN::PRODUCT, CN::PARALLEL_EVENTS, CN::SEQUENTIAL_EVENTS, CN::INTENSIONAL_INTERSECTION, CN::EXTENSIONAL_INTERSECTION, CN::EXTENSIONAL_DIFFERENCE, CN::INTENSIONAL_DIFFERENCE, CN::NEGATION, CN::INTENSIONAL_SET, CN::EXTENSIONAL_SET, CN::INTENSIONAL_IMAGE, CN::EXTENSIONAL_IMAGE, CN::LIST};
  int i = nd_choice("connector", 0, NCON - 1), j = nd_choice("other", 0, NCON - 1);
  CHECK(k[i] == con[i].v, "connector constant denotes its member"); CHECK(i == j || con[i].v != con[j].v, "connectors are distinct"); cover("end");
}
PROOF(copula_classes) {
  const CopSpec &s = cop[nd_choice("copula", 0, NCOP - 1)];
  CHECK(CP::is_commutative(s.v) == s.comm, "copula: commutative"); CHECK(CP::is_higher_order(s.v) == s.ho, "copula: higher order"); CHECK(CP::is_temporal(s.v) == s.temp, "copula: temporal"); CHECK(CP::Repr[s.v] == s.repr, "copula: spelling"); cover("end");
}
PROOF(copula_counterparts) {
  const CopSpec &s = cop[nd_choice("copula", 0, NCOP - 1)];
  auto y = CP::symmetrize(s.v); auto r = CP::reverse(s.v);
  CHECK((int)y == (int)s.sym, "copula: symmetric counterpart"); CHECK((int)r == (int)s.rev, "copula: reversed counterpart");
  if (s.rev != CP::None) { CHECK((int)CP::reverse((CP::Copula)(int)r) == (int)s.v, "reversal is an involution"); cover("reversed"); }
  if (s.sym != CP::None) { CHECK((int)CP::symmetrize((CP::Copula)(int)y) == (int)y, "symmetrising is idempotent");
    CHECK(CP::is_higher_order((CP::Copula)(int)y) == s.ho && CP::is_temporal((CP::Copula)(int)y) == s.temp, "the symmetric counterpart has the same order and temporality");
    CHECK(CP::is_commutative((CP::Copula)(int)y) || y == CP::PredictiveEquivalence, "the symmetric counterpart is commutative"); cover("symmetric"); }
}
PROOF(copula_constants) {
  const CP::Copula k[] = {CP::INHERITANCE, CP::SIMILARITY, CP::INSTANCE, CP::PROPERTY, CP::INSTANCEPROPERTY, CP::IMPLICATION, CP::PREDICTIVEIMPLICATION, CP::CONCURRENTIMPLICATION, CP::RETROSPECTIVEIMPLICATION, CP::EQUIVALENCE, CP::PREDICTIVEEQUIVALENCE, CP::CONCURRENTEQUIVALENCE};
  int i = nd_choice("copula", 0, NCOP - 1), j = nd_choice("other", 0, NCOP - 1);
  CHECK(k[i] == cop[i].v, "copula constant denotes its member"); CHECK(i == j || cop[i].v != cop[j].v, "copulas are distinct"); cover("end");
}
static int count_enum() {
#ifdef VF_MODEL
  return __vf_pyenum_count();
#else
  return vf::pyenums.size();
#endif
}
static long get_enum(int i, std::string &e, std::string &n) {
#ifdef VF_MODEL
  return __vf_pyenum_get(i, e._h, n._h);
#else
  e = vf::pyenums[i].first; n = vf::pyenums[i].second.first; return vf::pyenums[i].second.second;
#endif
}
static void reset_enum() {
#ifndef VF_MODEL
  vf::pyenums.clear();
#endif
}
PROOF(python_connectors) {
  reset_enum(); pybind11::module m; CN::pybind_connnector(m);
  int n = count_enum(), seen = 0; bool got[NCON] = {};
  for (int i = 0; i < n; ++i) { std::string e, nm; long v = get_enum(i, e, nm); CHECK(e == "Connector", "Python enumeration is called Connector");
    for (int j = 0; j < NCON; ++j) if (nm == con[j].name) { CHECK(v == (long)con[j].v, "Python connector name denotes the member of that name"); if (!got[j]) ++seen; got[j] = true; } }
  CHECK(seen == NCON, "every connector is offered to Python"); cover("end");
}
PROOF(python_copulas) {
  reset_enum(); pybind11::module m; CP::pybind_copula(m);
  int n = count_enum(), seen = 0; bool got[NCOP] = {};
  for (int i = 0; i < n; ++i) { std::string e, nm; long v = get_enum(i, e, nm); CHECK(e == "Copula", "Python enumeration is called Copula");
    for (int j = 0; j < NCOP; ++j) if (nm == cop[j].name) { CHECK(v == (long)cop[j].v, "Python copula name denotes the member of that name"); if (!got[j]) ++seen; got[j] = true; } }
  CHECK(seen == NCOP, "every copula is offered to Python"); cover("end");
}

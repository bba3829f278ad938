#include "verif.h"
#include "Narsese/include/Sentence.h"
using namespace SENTENCE; using TENSE::Tense;
// OPT * init=1 search=30000
// ASSUME the clock, occurrence times and durations stay below 2^29; evidence identifiers below 2^63 (no wrap-around of the counter)
static const int64_t T = 1 << 29;
static int now(const char *n) { return (int)nd_small(n, -T, T, -20, 20); }
static void set_clock() { GLOBAL::time = nd_small("clock", 0, T, 0, 40); }
static void any_history() {   // any number of evidence identifiers may have been handed out before
  any_global("^GLOBAL::_input_id$");
  if (vf_native) for (int i = nd_int("earlier", 0, 3); i > 0; --i) GLOBAL::get_input_id();
}
PROOF(tense) {
  set_clock(); CONFIG::temporal_duration = (unsigned)nd_small("duration", 1, T, 1, 8);
  int64_t now_ = GLOBAL::time, dur = CONFIG::temporal_duration;
  Stamp s(false); s.t_occurrence = now("occurrence"); bool et = nd_bool("eternal"); s.is_eternal = et;
  int64_t o = s.t_occurrence;
  auto t = s.tense();
  if (et) { CHECK(t == Tense::Eternal, "an eternal stamp is eternal"); cover("eternal"); }
  else if (o >= now_ + dur) { CHECK(t == Tense::Future, "at least one duration ahead: future"); cover("future"); }
  else if (o <= now_ - dur) { CHECK(t == Tense::Past, "at least one duration ago: past"); cover("past"); }
  else { CHECK(t == Tense::Present, "less than one duration away: present"); cover("present"); }
  CHECK(s.t_occurrence == (int)o && s.is_eternal == et && GLOBAL::time == (unsigned long)now_, "asking for the tense changes nothing");
}
PROOF(eternalize) {
  set_clock(); Stamp s(now("occurrence")); int o = s.t_occurrence, c = s.t_creation, p = s.t_put; auto b = s.evidential_base;
  CHECK(!s.is_eternal, "a stamp with an occurrence time is not eternal"); CHECK(s.tense() != Tense::Eternal, "a stamp with an occurrence time has a temporal tense");
  s.eternalize();
  CHECK(s.is_eternal && s.tense() == Tense::Eternal, "eternalize makes the stamp eternal"); CHECK(s.t_occurrence == o && s.t_creation == c && s.t_put == p && s.evidential_base == b, "eternalize changes nothing else");
  s.eternalize(); CHECK(s.is_eternal, "eternalize twice"); cover("end");
}
PROOF(create_default) {
  set_clock(); any_history(); bool et = nd_bool("eternal"), heap = nd_bool("heap");
  pStamp s = heap ? Stamp::create(et) : pStamp(new Stamp(et));
  CHECK(s->is_eternal == et, "eternal as asked"); CHECK(s->t_occurrence == (int)GLOBAL::time && s->t_creation == (int)GLOBAL::time, "default times are the present"); CHECK(s->t_put == -1, "not put into a buffer yet");
  CHECK(s->evidential_base != nullptr && s->evidential_base->size() > 0, "evidence present");
  pStamp d = Stamp::create(); CHECK(!d->is_eternal && d->evidential_base != nullptr && d->evidential_base->size() > 0, "default stamp is temporal and carries evidence"); cover("end");
}
PROOF(create_occurrence) {
  set_clock(); any_history(); int o = now("occurrence");
  pStamp s = nd_bool("heap") ? Stamp::create(o) : pStamp(new Stamp(o));
  CHECK(s->t_occurrence == o && s->t_creation == (int)GLOBAL::time && s->t_put == -1 && !s->is_eternal, "stated occurrence time stored, rest default"); CHECK(s->evidential_base != nullptr && s->evidential_base->size() > 0, "evidence present"); cover("end");
}
PROOF(create_full) {
  set_clock(); any_history(); int o = now("occurrence"), c = now("creation"), p = now("put"); bool et = nd_bool("eternal"), heap = nd_bool("heap");
  size_t a = nd_u64("id1"), b = nd_u64("id2");
  auto base = std::make_shared<EVIDENCE::Base>(std::set<size_t>({a, b})); auto n = base->size();
  pStamp s = heap ? Stamp::create(o, c, p, base, et) : pStamp(new Stamp(o, c, p, base, et));
  CHECK(s->t_occurrence == o && s->t_creation == c && s->t_put == p && s->is_eternal == et, "explicit times stored unchanged");
  CHECK(s->evidential_base == base, "explicit evidence stored"); CHECK(base->size() == n && base->_set->count(a) == 1 && base->_set->count(b) == 1, "explicit evidence not changed");
  pStamp d = Stamp::create(o, c, p, base); CHECK(d->is_eternal && d->evidential_base == base, "fully specified stamps are eternal by default"); cover("end");
}
PROOF(create_no_evidence) {
  set_clock(); any_history(); int o = now("occurrence"), c = now("creation"), p = now("put"); bool et = nd_bool("eternal"), heap = nd_bool("heap");
  pStamp s = heap ? Stamp::create(o, c, p, nullptr, et) : pStamp(new Stamp(o, c, p, nullptr, et));
  CHECK(s->t_occurrence == o && s->t_creation == c && s->t_put == p && s->is_eternal == et, "explicit times stored unchanged without evidence");
  CHECK(s->evidential_base != nullptr, "a stamp created without evidence gets a base"); CHECK(s->evidential_base->size() > 0, "a stamp created without evidence gets evidence"); cover("end");
}
static pStamp stamp_by(int route) {
  switch (route) { case 0: return Stamp::create(true); case 1: return Stamp::create(false); case 2: return Stamp::create(7); case 3: return Stamp::create(1, 2, 3, nullptr, false);
    case 4: return pStamp(new Stamp(true)); case 5: return pStamp(new Stamp(3)); default: return pStamp(new Stamp(4, 5, 6, nullptr)); }
}
// every identifier handed out lies between two consecutive draws of the counter: with the counter increasing, no two stamps share evidence
PROOF(fresh_evidence) {
  any_history(); size_t before = GLOBAL::get_input_id(); assume(before < (1ull << 63));
  pStamp s = stamp_by(nd_choice("route", 0, 6));
  size_t after = GLOBAL::get_input_id();
  CHECK(s->evidential_base != nullptr && s->evidential_base->size() > 0, "evidence present");
  for (size_t id : *s->evidential_base->_set) CHECK(id > before && id < after, "evidence identifiers are fresh");
  CHECK(after > before, "the counter increases"); cover("end");
}
PROOF(disjoint) {
  any_history(); size_t before = GLOBAL::get_input_id(); assume(before < (1ull << 63));
  pStamp s = stamp_by(nd_choice("first", 0, 6)), t = stamp_by(nd_choice("second", 0, 6));
  CHECK(!s->evidential_base->is_overlaped(*t->evidential_base), "stamps created without evidence do not overlap");
  CHECK(s->evidential_base != t->evidential_base && s->evidential_base->_set != t->evidential_base->_set, "stamps created without evidence share no base"); cover("end");
}
PROOF(extend) {
  any_history(); pStamp s = stamp_by(nd_choice("route", 0, 6)); size_t x = nd_u64("id"); assume(CONFIG::maximum_evidential_base_length >= 4);
  size_t own = *s->evidential_base->_set->begin();
  bool none = nd_bool("lost"); if (none) s->evidential_base = nullptr;
  EVIDENCE::Base other(std::set<size_t>({x})); s->extend_evidenital_base(other);
  CHECK(s->evidential_base != nullptr && s->evidential_base->_set->count(x) == 1, "extending a stamp adds the evidence"); if (!none) CHECK(s->evidential_base->_set->count(own) == 1, "extending a stamp keeps its own evidence");
  CHECK(other.size() == 1 && other._set->count(x) == 1, "the other base is unchanged"); cover("end");
}

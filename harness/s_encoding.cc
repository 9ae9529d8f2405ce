// S01..S06: storage encoding, patterns, expiration index, revisions.
#include "common.hh"
#include "deps/StringMatchLen.h"
#include "Utils.hh"
#include "storage/ExpirationEventCache.hh"
#include "storage/InternalKeyParsing.hh"
#include "storage/KeyDescriptor.hh"
#include "storage/KeyLocators.hh"
#include "storage/PatternMatching.hh"
#include "storage/ReverseLocator.hh"
#include "storage/VersionedHashRevisionTracker.hh"
#include "utils/IntToBinaryString.hh"
#include <algorithm>
#include <map>
#include <set>
using namespace quarkdb;
using vf::quote;

static const KeyType kFieldTypes[] = {KeyType::kHash, KeyType::kSet, KeyType::kDeque, KeyType::kVersionedHash};

// keys and hints: short strings over the delimiter characters, arbitrary bytes, and long ones around the inline-buffer size
static std::string genKey(vf::Source &src, bool allowEmpty = false) {
  std::string s;
  switch (src.weighted({6, 3, 1})) {
    case 0: s = src.over("#|ad", 7); break;
    case 1: s = src.bytes(20); break;
    default: {
      size_t n = (size_t) src.range(490, 530); char ch = "a#|"[src.draw(3)];
      s = std::string(n, ch); size_t k = src.draw(4); for (size_t i = 0; i < k; i++) s[src.draw(n)] = "#|b"[src.draw(3)];
    }
  }
  if (s.empty() && !allowEmpty) s = "a";
  return s;
}
// a key related to another: the interesting collisions are between near neighbours
static std::string mutate(vf::Source &src, std::string s) {
  switch (src.draw(6)) {
    case 0: s += "#|a"[src.draw(3)]; break;
    case 1: s += src.over("#|d", 3); break;
    case 2: if (s.size() > 1) s.pop_back(); break;
    case 3: s[src.draw(s.size())] = "#|a"[src.draw(3)]; break;
    case 4: s += "##"; break;
    default: s = "|" + s;
  }
  return s;
}
// finding S01-ESCAPE: keys (or hints) X"|" and X"#" have nested storage prefixes. Not generated together; counted.
static bool ambiguousPair(const std::string &a, const std::string &b) {
  if (a.size() != b.size() || a.empty()) return false;
  if (a.compare(0, a.size() - 1, b, 0, b.size() - 1) != 0) return false;
  return (a.back() == '|' && b.back() == '#') || (a.back() == '#' && b.back() == '|');
}
static std::string field(KeyType t, const std::string &key, const std::string &f) { FieldLocator l(t, key, f); return std::string(l.toView()); }
static std::string prefixOf(KeyType t, const std::string &key) { FieldLocator l(t, key); return std::string(l.getPrefix()); }

VF_RULE(S01, "Random pairs of containers whose keys/hints are near neighbours over the delimiter characters, plus fields. Non-trivial: the two names differ and at least one contains a delimiter (# or |) or exceeds the inline buffer.");

VF_PROP(S01, field_containers, 400000, 12000000, vf::kNone) {
  KeyType ta = kFieldTypes[src.draw(4)], tb = src.chance(1, 4) ? kFieldTypes[src.draw(4)] : ta;
  std::string a = genKey(src), b = src.chance(1, 4) ? genKey(src) : mutate(src, a);
  std::string fa = src.chance(1, 3) ? genKey(src, true) : src.over("#|ab", 5), fb = src.chance(1, 3) ? genKey(src, true) : src.over("#|ab", 5);
  c.note(std::string("container A: type ") + (char) ta + " key " + quote(a, 40) + " field " + quote(fa, 40));
  c.note(std::string("container B: type ") + (char) tb + " key " + quote(b, 40) + " field " + quote(fb, 40));
  if (ta == tb && ambiguousPair(a, b)) { c.label("excluded: known finding S01-ESCAPE"); return; }
  std::string ea = field(ta, a, fa), eb = field(tb, b, fb), pa = prefixOf(ta, a), pb = prefixOf(tb, b);
  bool same = ta == tb && a == b;
  c.nontrivial(!same && (a.find_first_of("#|") != a.npos || b.find_first_of("#|") != b.npos || a.size() > 480));
  c.label(same ? "same container" : ta == tb ? "same type, different key" : "different type");
  c.require(startsWith(ea, pa), "a field is not inside its own container's range");
  c.require(startsWith(eb, pb), "a field is not inside its own container's range");
  if (same) c.require((ea == eb) == (fa == fb) && (ea < eb) == (fa < fb), "fields are not stored in field order");
  else {
    c.require(ea != eb, "two different (type, key, field) share one storage location " + quote(ea, 60));
    c.require(!startsWith(eb, pa), "field of B " + quote(eb, 60) + " lies inside the range of container A " + quote(pa, 60));
    c.require(!startsWith(ea, pb), "field of A " + quote(ea, 60) + " lies inside the range of container B " + quote(pb, 60));
  }
}

VF_PROP(S01, locality_containers, 300000, 9000000, vf::kNone) {
  std::string ka = genKey(src), kb = src.chance(1, 3) ? mutate(src, ka) : ka;
  std::string ha = genKey(src), hb = src.chance(1, 4) ? genKey(src) : mutate(src, ha);
  std::string fa = genKey(src), fb = src.chance(1, 3) ? fa : genKey(src);
  c.note("A: key " + quote(ka, 40) + " hint " + quote(ha, 40) + " field " + quote(fa, 40));
  c.note("B: key " + quote(kb, 40) + " hint " + quote(hb, 40) + " field " + quote(fb, 40));
  if (ambiguousPair(ka, kb) || ambiguousPair(ha, hb)) { c.label("excluded: known finding S01-ESCAPE"); return; }
  auto data = [](const std::string &k, const std::string &h, const std::string &f) { LocalityFieldLocator l(k, h, f); return std::string(l.toView()); };
  auto hintRange = [](const std::string &k, const std::string &h) { LocalityFieldLocator l(k, h); return std::string(l.toView()); };
  auto keyRange = [](const std::string &k) { LocalityFieldLocator l(k); return std::string(l.getPrefix()); };
  auto index = [](const std::string &k, const std::string &f) { LocalityIndexLocator l(k, f); return std::string(l.toView()); };
  auto indexRange = [](const std::string &k) { LocalityIndexLocator l(k); return std::string(l.toView()); };
  std::string da = data(ka, ha, fa), db = data(kb, hb, fb), ia = index(ka, fa), ib = index(kb, fb);
  c.nontrivial(ka != kb || ha != hb);
  c.require(startsWith(da, hintRange(ka, ha)) && startsWith(da, keyRange(ka)), "a field is outside its own range");
  c.require(startsWith(ia, indexRange(ka)), "an index entry is outside its own range");
  c.require(!startsWith(ia, keyRange(ka)) && !startsWith(da, indexRange(ka)), "index entries and field values interleave");
  if (ka == kb && ha == hb) c.require((da == db) == (fa == fb) && (da < db) == (fa < fb), "fields are not stored in field order");
  if (ka == kb) {
    c.require((ia == ib) == (fa == fb) && (ia < ib) == (fa < fb), "index entries are not in field order");
    if (ha != hb) { c.require(da != db, "different hints share a storage location"); c.require(!startsWith(db, hintRange(ka, ha)), "a field of hint B lies inside the range of hint A"); c.label("different hint"); }
  } else {
    c.label("different key");
    c.require(da != db && ia != ib && da != ib && ia != db, "different keys share a storage location");
    c.require(!startsWith(db, keyRange(ka)) && !startsWith(ib, indexRange(ka)) && !startsWith(db, indexRange(ka)) && !startsWith(ib, keyRange(ka)), "key B lies inside the range of key A");
  }
}

VF_PROP(S01, flat_keys, 200000, 4000000, vf::kNone) {
  std::string a = genKey(src, true), b = src.chance(1, 2) ? a : mutate(src, a.empty() ? "a" : a);
  uint64_t da = src.raw64() >> src.draw(64), db = src.chance(1, 2) ? da : src.raw64() >> src.draw(64);
  auto enc = [](size_t kind, const std::string &k, uint64_t d) -> std::string {
    switch (kind) {
      case 0: { DescriptorLocator l(k); return std::string(l.toView()); }
      case 1: { StringLocator l(k); return std::string(l.toView()); }
      case 2: { LeaseLocator l(k); return std::string(l.toView()); }
      case 3: { ConfigurationLocator l(k); return std::string(l.toView()); }
      case 4: { ExpirationEventLocator l(d, k); return std::string(l.toView()); }
      case 5: return field(KeyType::kHash, k, "f");
      case 6: return field(KeyType::kSet, k, "f");
      case 7: return field(KeyType::kDeque, k, "f");
      default: return field(KeyType::kVersionedHash, k, "f");
    }
  };
  size_t x = src.draw(9), y = src.draw(9);
  std::string ea = enc(x, a, da), eb = enc(y, b, db);
  c.note("A: kind " + std::to_string(x) + " key " + quote(a, 40) + " deadline " + std::to_string(da));
  c.note("B: kind " + std::to_string(y) + " key " + quote(b, 40) + " deadline " + std::to_string(db));
  bool same = x == y && a == b && (x != 4 || da == db);
  c.nontrivial(!same);
  if (x >= 5 && x == y && ambiguousPair(a, b)) { c.label("excluded: known finding S01-ESCAPE"); return; }
  c.require((ea == eb) == same, "distinct records share one storage location, or one record has two");
  if (x != y) c.require(ea[0] != eb[0], "two kinds of record share a storage area");
  c.require(ea[0] != '_', "user data reach the internal area");
  if (x == 4 && y == 4 && da != db) c.require((ea < eb) == (da < db), "expiration events are not ordered by deadline");
}

// one locator object re-targeted many times gives the same locations as fresh ones
VF_PROP(S01, reused_locator, 60000, 2000000, vf::kNone) {
  bool loc = src.flip(); KeyType t = kFieldTypes[src.draw(4)];
  std::string key = genKey(src), hint = genKey(src), f;
  auto longish = [&] { return src.chance(1, 3) ? std::string((size_t) src.range(1, 1600), 'x') : genKey(src); };
  std::unique_ptr<FieldLocator> fl; std::unique_ptr<LocalityFieldLocator> ll; std::unique_ptr<LocalityIndexLocator> il; bool haveHint = false;
  if (loc) { ll = std::make_unique<LocalityFieldLocator>(key); il = std::make_unique<LocalityIndexLocator>(key); } else fl = std::make_unique<FieldLocator>(t, key);
  c.note(std::string(loc ? "locality" : "field") + " locator, key " + quote(key, 30) + " (" + std::to_string(key.size()) + " bytes)");
  for (int i = 0; i < 12 && src.more(6); i++) {
    VF_SPAN(src);
    switch (src.draw(3)) {
      case 0: key = longish(); c.note("key of " + std::to_string(key.size()) + " bytes"); if (loc) { ll->resetKey(key); il->resetKey(key); haveHint = false; } else fl->resetKey(t, key); break;
      case 1: if (!loc) break; hint = longish(); c.note("hint of " + std::to_string(hint.size()) + " bytes"); ll->resetHint(hint); haveHint = true; c.equal(std::string(ll->toView()), std::string(LocalityFieldLocator(key, hint).toView()), "hint location"); break;
      default: {
        f = src.chance(1, 3) ? std::string() : longish(); if (loc && f.empty()) f = "f";
        c.note("field of " + std::to_string(f.size()) + " bytes");
        if (loc) {
          il->resetField(f); c.equal(std::string(il->toView()), std::string(LocalityIndexLocator(key, f).toView()), "index location");
          if (haveHint) { ll->resetField(f); c.equal(std::string(ll->toView()), std::string(LocalityFieldLocator(key, hint, f).toView()), "field location"); }
        } else {
          fl->resetField(f);
          std::string esc; for (char ch : key) { if (ch == '#') esc += "|#"; else esc += ch; }
          c.equal(std::string(fl->toView()), std::string(1, (char) t) + esc + "##" + f, "field location");
          c.equal(std::string(fl->getPrefix()), std::string(1, (char) t) + esc + "##", "container range");
        }
        c.nontrivial(key.size() + f.size() > 500);
      }
    }
  }
}
VF_PROBE(S01, "S01-ESCAPE", escape) {
  return startsWith(field(KeyType::kHash, "x#", "f"), prefixOf(KeyType::kHash, "x|")) ? "hash \"x#\" is stored inside the range of hash \"x|\" (escaped prefixes x|### and x|##)" : "";
}

// ------------------------------------------------------------------------------------------------ S02
VF_RULE(S02, "Random keys/fields/hints over delimiters and bytes, encoded and decoded; and arbitrary/truncated/mutated bytes decoded in exactly sized heap blocks. Non-trivial: name contains a delimiter, or the bytes are malformed.");

VF_PROP(S02, field_roundtrip, 500000, 15000000, vf::kNone) {
  KeyType t = kFieldTypes[src.draw(4)]; std::string key = genKey(src), f = src.chance(1, 3) ? src.bytes(30) : src.over("#|ab", 6);
  c.note(std::string("type ") + (char) t + " key " + quote(key, 60) + " field " + quote(f, 60));
  if (key.back() == '|' && f[0] == '#') { c.label("excluded: known finding S01-ESCAPE"); return; }
  Exact e(field(t, key, f)); ReverseLocator r(e.view());
  c.nontrivial(key.find_first_of("#|") != key.npos || f.find_first_of("#|") != f.npos);
  c.require(r.getKeyType() == t, "decoded type differs");
  c.equal(std::string(r.getOriginalKey()), key, "decoded key");
  c.equal(std::string(r.getField()), f, "decoded field");
  c.equal(std::string(r.getRawPrefixUntilBoundary()), prefixOf(t, key), "decoded container range");
  c.require(!r.isLocalityIndex(), "a plain field is taken for a locality index");
}
VF_PROP(S02, string_roundtrip, 50000, 1000000, vf::kNone) {
  std::string key = genKey(src, true); c.note("key " + quote(key, 80)); StringLocator l(key); Exact e(l.toView()); ReverseLocator r(e.view());
  c.nontrivial(!key.empty());
  c.require(r.getKeyType() == KeyType::kString, "decoded type differs"); c.equal(std::string(r.getOriginalKey()), key, "decoded key");
}
VF_PROP(S02, locality_roundtrip, 300000, 9000000, vf::kNone) {
  std::string key = genKey(src), hint = genKey(src), f = genKey(src);
  c.note("key " + quote(key, 40) + " hint " + quote(hint, 40) + " field " + quote(f, 40));
  c.nontrivial((key + hint).find_first_of("#|") != key.npos);
  { Exact e(LocalityIndexLocator(key, f).toView()); ReverseLocator r(e.view());
    c.require(r.getKeyType() == KeyType::kLocalityHash && r.isLocalityIndex(), "an index entry is not recognised as one");
    c.equal(std::string(r.getOriginalKey()), key, "decoded key (index)"); c.equal(std::string(r.getField()), "i" + f, "decoded field (index)"); }
  { Exact e(LocalityFieldLocator(key, hint, f).toView()); ReverseLocator r(e.view());
    c.require(r.getKeyType() == KeyType::kLocalityHash && !r.isLocalityIndex(), "a field value is taken for an index entry");
    c.equal(std::string(r.getOriginalKey()), key, "decoded key");
    if (hint.back() == '|' && f[0] == '#') { c.label("excluded: known finding S01-ESCAPE"); return; }
    std::string_view rest = r.getField(); c.require(!rest.empty() && rest[0] == 'd', "field value has no data marker"); rest.remove_prefix(1);
    Exact e2(rest); EscapedPrefixExtractor x; c.require(x.parse(e2.view()), "hint of a stored field does not parse");
    c.equal(std::string(x.getOriginalPrefix()), hint, "decoded hint"); c.equal(std::string(x.getRawSuffix()), f, "decoded field");
    std::string esc; for (char ch : hint) { if (ch == '#') esc += "|#"; else esc += ch; }
    c.equal(std::string(x.getRawPrefix()), esc, "raw hint"); }
}
VF_PROP(S02, arbitrary_bytes, 600000, 20000000, vf::kNone) {
  std::string s;
  switch (src.draw(3)) {
    case 0: s = src.over("#|a", 10); break;
    case 1: s = src.bytes(40); break;
    default: { s = field(kFieldTypes[src.draw(4)], genKey(src), src.over("#|a", 4)).substr(1); if (s.size()) { size_t n = src.draw(s.size() + 1); s.resize(n); } }
  }
  std::string withType = std::string(1, "bcdegafz!"[src.draw(9)]) + s;
  c.note("bytes " + quote(withType, 120)); c.nontrivial(s.find('#') != s.npos);
  { Exact e(s); EscapedPrefixExtractor x; bool ok = false;
    ok = x.parse(e.view());   // must not throw: cursors from clients reach this parser
    c.label(ok ? "parsed" : "malformed");
    if (ok) {
      c.require(x.getBoundary() >= 2 && x.getBoundary() <= s.size(), "boundary outside the input");
      c.require(s.compare(x.getBoundary() - 2, 2, "##") == 0, "boundary is not at a delimiter");
      c.require(std::string(x.getRawPrefix()) + "##" + std::string(x.getRawSuffix()) == s, "raw parts do not add up to the input");
      c.require(x.getOriginalPrefix().size() <= x.getRawPrefix().size(), "decoded prefix longer than the raw one");
    } }
  { Exact e(withType); ReverseLocator r(e.view());
    if (r.getKeyType() != KeyType::kParseError && r.getKeyType() != KeyType::kString) {
      c.require(r.getRawPrefixUntilBoundary().size() + r.getField().size() == withType.size(), "parts do not add up to the input");
      if (r.getField().size()) r.isLocalityIndex();
    } }
}
// rocksdb internal keys: user key + 8 byte trailer
VF_PROP(S02, internal_keys, 100000, 2000000, vf::kNone) {
  std::string user = src.bytes(12); uint8_t type = src.chance(1, 2) ? (uint8_t) src.draw(0x16) : (uint8_t) src.draw(256); uint64_t seq = src.raw64() >> 8;
  uint64_t trailer = seq << 8 | type; std::string k = user; for (int i = 0; i < 8; i++) k += (char) (trailer >> (8 * i));
  if (src.chance(1, 6)) k.resize(src.draw(k.size() + 1));
  c.note("internal key " + quote(k)); Exact e(k); bool t = isTombstone(e.view()); std::string name = getInternalKeyType(e.view());
  c.nontrivial(k.size() >= 8);
  if (k.size() < 8) { c.require(!t, "short key taken for a tombstone"); c.equal(name, std::string("(invalid key type)"), "type of a short key"); return; }
  if (k.size() != user.size() + 8) return;
  c.require(t == (type == 0 || type == 7), "tombstone flag wrong for type " + std::to_string(type));
  c.require((name.find("deletion") != name.npos && name.find("family") == name.npos && name.find("range") == name.npos) == t, "type name '" + name + "' disagrees with tombstone flag");
  static const char *names[] = {"deletion", "value", "merge", "log data", "column family deletion", "column family value", "column family merge", "single deletion", "column family single deletion", "begin prepare xid", "end prepare xid", "commit xid", "rollback xid", "noop", "column family range deletion", "range deletion", "column family blob index", "blob index", "begin persisted prepare xid", "begin unprepare xid"};
  c.equal(name, std::string(type < 20 ? names[type] : "(cannot determine key type)"), "type name");
}

// ------------------------------------------------------------------------------------------------ S03
VF_RULE(S03, "Random descriptors over all types and full 64-bit ranges (edges favoured), their truncations and corruptions, and integer pairs. Non-trivial: a value outside [0,255], or a corrupted record.");
static uint64_t edge64(vf::Source &src) {
  switch (src.draw(4)) { case 0: return src.draw(300); case 1: return src.raw64(); case 2: return ~(uint64_t) src.draw(300); default: return (1ull << src.draw(64)) + (uint64_t) src.range(-2, 2); }
}
VF_PROP(S03, integers, 300000, 9000000, vf::kNone) {
  uint64_t a = edge64(src), b = edge64(src); c.note(std::to_string(a) + " " + std::to_string(b)); c.nontrivial(a > 255 || b > 255);
  std::string ea = unsignedIntToBinaryString(a), eb = unsignedIntToBinaryString(b);
  c.require(ea.size() == 8, "size"); c.equal(binaryStringToUnsignedInt(std::string_view(ea)), a, "unsigned round trip"); c.equal(binaryStringToUnsignedInt(ea.data()), a, "unsigned round trip");
  c.require((ea < eb) == (a < b) && (ea == eb) == (a == b), "encoded unsigned integers do not sort in numeric order");
  int64_t s = (int64_t) a; std::string es = intToBinaryString(s); c.equal(binaryStringToInt(std::string_view(es)), s, "signed round trip"); c.equal(binaryStringToInt(es.data()), s, "signed round trip");
  std::string ref; for (int i = 7; i >= 0; i--) ref += (char) (a >> (8 * i)); c.equal(ea, ref, "big-endian form"); c.equal(es, ref, "big-endian form");
  char buf[8]; intToBinaryString(s, buf); c.equal(std::string(buf, 8), ref, "big-endian form"); unsignedIntToBinaryString(a, buf); c.equal(std::string(buf, 8), ref, "big-endian form");
}
static const KeyType kAllTypes[] = {KeyType::kString, KeyType::kHash, KeyType::kSet, KeyType::kDeque, KeyType::kLocalityHash, KeyType::kLease, KeyType::kVersionedHash};
VF_PROP(S03, descriptors, 300000, 9000000, vf::kNone) {
  KeyType t = kAllTypes[src.draw(7)]; int64_t size = (int64_t) edge64(src); uint64_t s = edge64(src), e = edge64(src); if (s > e) std::swap(s, e);
  bool range = t == KeyType::kDeque || t == KeyType::kLease, version = t == KeyType::kVersionedHash;
  // start/end are compared as stored 64-bit values
  c.note(std::string("type ") + (char) t + " size " + std::to_string(size) + " start " + std::to_string(s) + " end " + std::to_string(e)); c.nontrivial((uint64_t) size > 255 || s > 255);
  KeyDescriptor d; c.require(d.empty(), "a new descriptor is not empty");
  d.setKeyType(t); d.setSize(size); if (range) { d.setStartIndex(s); d.setEndIndex(e); } if (version) d.setStartIndex(s);
  Exact ser(d.serialize()); c.equal(ser.view().size(), (size_t)(range ? 25 : version ? 17 : 9), "record size");
  KeyDescriptor r(ser.view());
  c.require(r.getKeyType() == t && !r.empty(), "type"); c.equal(r.getSize(), size, "size");
  if (range) { c.equal(r.getStartIndex(), s, "start"); c.equal(r.getEndIndex(), e, "end"); }
  if (version) c.equal(r.getStartIndex(), s, "version");
  c.require(r == d, "descriptor read back differs from the one written");
  Exact again(r.serialize()); c.require(again.view() == ser.view(), "second serialization differs");
  if (t == KeyType::kDeque) { c.equal(r.getListIndex(Direction::kLeft), s, "left end"); c.equal(r.getListIndex(Direction::kRight), e, "right end"); uint64_t n = s / 2; r.setListIndex(Direction::kLeft, n); c.equal(r.getStartIndex(), n, "left end after set"); c.equal(r.getEndIndex(), e, "right end after setting left"); r.setListIndex(Direction::kRight, e); c.equal(r.getEndIndex(), e, "right end"); }
}
VF_PROP(S03, corrupted_descriptors, 300000, 6000000, vf::kNone) {
  KeyType t = kAllTypes[src.draw(7)]; KeyDescriptor d; d.setKeyType(t); d.setSize((int64_t) src.draw(1000)); std::string s(d.serialize());
  switch (src.draw(4)) {
    case 0: s.resize(src.draw(s.size() + 1)); break;
    case 1: s += src.bytes(10); break;
    case 2: s[src.draw(s.size())] = (char) src.draw(256); break;
    default: s = src.bytes(30);
  }
  c.note("record " + quote(s)); c.nontrivial(); Exact e(s);
  try {
    KeyDescriptor r(e.view()); KeyType rt = r.getKeyType(); bool range = rt == KeyType::kDeque || rt == KeyType::kLease;
    size_t want = range ? 25 : rt == KeyType::kVersionedHash ? 17 : 9;
    c.require(s.size() == want, "a record of the wrong size was accepted"); c.require((char) rt == s[0], "type differs from the record");
    if (range) c.require(r.getStartIndex() <= r.getEndIndex(), "an inverted range was accepted");
    c.require(std::string(r.serialize()) == s, "accepted record does not serialize back to itself"); c.label("accepted");
  } catch (const FatalException &) { c.label("refused");
    bool range = s.size() && (s[0] == 'd' || s[0] == 'f'); size_t want = s.empty() ? 0 : range ? 25 : s[0] == 'g' ? 17 : 9;
    bool known = s.size() && std::string("abcdefg").find(s[0]) != std::string::npos;
    if (known && s.size() == want && (!range || s.compare(9, 8, s, 17, 8) <= 0)) c.fail("a well-formed record was refused");
  }
}
VF_PROP(S03, type_names, 2000, 20000, vf::kNone) {
  char ch = (char) src.draw(256); KeyType t = parseKeyType(ch); c.note(quote(std::string(1, ch)));
  bool known = std::string("abcdefg").find(ch) != std::string::npos; c.nontrivial(known);
  c.require((t != KeyType::kParseError) == known, "type byte recognised wrongly"); if (known) c.require((char) t == ch, "type byte maps to another type");
  std::set<std::string> names; for (auto x : kAllTypes) c.require(names.insert(keyTypeAsString(x)).second, "two types share a name");
  c.equal(keyTypeAsString(KeyType::kNull), std::string("none"), "name of no type");
}

// ------------------------------------------------------------------------------------------------ S04
VF_RULE(S04, "Random glob patterns (built from well-formed tokens, or arbitrary bytes) against texts derived from the pattern or random, in exactly sized heap blocks, compared with an independent matcher. Non-trivial: pattern has a wildcard, class or escape.");
struct Tok { char kind; char ch; bool neg; std::vector<std::pair<unsigned char, unsigned char>> cls; };
static std::string fold(std::string s) { for (auto &x : s) x = (char) tolower((unsigned char) x); return s; }
static bool refMatch(const std::vector<Tok> &p, const std::string &s) {
  std::vector<char> cur(s.size() + 1, 0), nxt; cur[0] = 1;
  for (auto &t : p) {
    nxt.assign(s.size() + 1, 0);
    if (t.kind == '*') { bool on = false; for (size_t i = 0; i <= s.size(); i++) { on |= cur[i]; nxt[i] = on; } }
    else for (size_t i = 0; i < s.size(); i++) if (cur[i]) {
      bool m = false; unsigned char x = s[i];
      if (t.kind == '?') m = true; else if (t.kind == 'c') m = s[i] == t.ch; else { for (auto &r : t.cls) if (x >= r.first && x <= r.second) m = true; m = m != t.neg; }
      if (m) nxt[i + 1] = 1;
    }
    cur = nxt;
  }
  return cur[s.size()];
}
static std::string genPattern(vf::Source &src, std::vector<Tok> &toks, std::string &sampleText, int maxStars) {
  std::string p; int stars = 0; static const std::string lit("abcX-^]:/ \x80\xff\0", 13);
  for (int i = 0; i < 8 && src.more(4); i++) {
    VF_SPAN(src);
    switch (src.weighted({4, 2, 2, 3, 2})) {
      case 0: { char ch = lit[src.draw(lit.size())]; toks.push_back({'c', ch, false, {}}); p += ch; sampleText += ch; break; }
      case 1: if (stars++ >= maxStars) break; { size_t n = 1 + src.draw(2); toks.push_back({'*', 0, false, {}}); p += std::string(n, '*'); sampleText += src.over("abc", 4); } break;
      case 2: toks.push_back({'?', 0, false, {}}); p += '?'; sampleText += (char) src.draw(256); break;
      case 3: {
        Tok t{'[', 0, src.flip(), {}}; p += t.neg ? "[^" : "["; size_t n = src.draw(4); std::string in;
        for (size_t k = 0; k < n; k++) {
          switch (src.draw(3)) {
            case 0: { char a = "abcdeXYZ"[src.draw(8)]; t.cls.push_back({(unsigned char) a, (unsigned char) a}); p += a; in += a; break; }
            case 1: { char a = "abcdeXYZ09"[src.draw(10)], b = "abcdeXYZ09"[src.draw(10)]; p += a; p += '-'; p += b; if ((unsigned char) a > (unsigned char) b) std::swap(a, b); t.cls.push_back({(unsigned char) a, (unsigned char) b}); in += a; break; }
            default: { char a = "]^-\\[*?a"[src.draw(8)]; p += '\\'; p += a; t.cls.push_back({(unsigned char) a, (unsigned char) a}); in += a; }
          }
        }
        p += ']'; toks.push_back(t); sampleText += in.empty() || t.neg ? (char) ('a' + src.draw(6)) : in[src.draw(in.size())]; break;
      }
      default: { char ch = "*?[]\\ab\xff"[src.draw(8)]; p += '\\'; p += ch; toks.push_back({'c', ch, false, {}}); sampleText += ch; }
    }
  }
  return p;
}
VF_PROP(S04, wellformed, 500000, 15000000, vf::kNone) {
  std::vector<Tok> toks; std::string text; std::string pat = genPattern(src, toks, text, 4);
  switch (src.draw(4)) { case 0: text = src.over("abcX]", 8); break; case 1: if (!text.empty()) text[src.draw(text.size())] = (char) src.draw(256); break; default: break; }
  // "[" against the empty text is documented nowhere; an empty text is matched only by stars
  c.note("pattern " + quote(pat) + " text " + quote(text)); bool want = refMatch(toks, text);
  c.nontrivial(pat.find_first_of("*?[\\") != pat.npos); c.label(want ? "match" : "no match");
  Exact ep(pat), et(text); bool got = stringmatchlen(ep.view().data(), ep.view().size(), et.view().data(), et.view().size(), 0);
  c.equal(got, want, "match result");
  // prefix restriction never hides a match
  std::string pre = extractPatternPrefix(ep.view()); c.require(startsWith(pat, pre), "extracted prefix is not a prefix of the pattern");
  if (want) c.require(startsWith(text, pre), "text matches but lies outside the extracted prefix " + quote(pre));
  c.require(pre.find_first_of("*?[\\") == pre.npos, "extracted prefix contains a wildcard");
}
VF_PROP(S04, case_insensitive, 100000, 2000000, vf::kNone) {
  std::string text = src.over("aAbBzZ-", 8), pat = src.over("aAbBzZ?-", 8); if (src.chance(2, 3)) { pat = text; for (auto &x : pat) if (src.flip()) x = (char) (isupper(x) ? tolower(x) : toupper(x)); }
  c.note("pattern " + quote(pat) + " text " + quote(text)); bool want = pat.size() == text.size(); for (size_t i = 0; want && i < pat.size(); i++) if (pat[i] != '?' && tolower(pat[i]) != tolower(text[i])) want = false;
  c.nontrivial(want); Exact ep(pat), et(text); c.equal((bool) stringmatchlen(ep.view().data(), ep.view().size(), et.view().data(), et.view().size(), 1), want, "case-insensitive match");
}
VF_PROP(S04, arbitrary, 600000, 20000000, vf::kNone) {
  std::string pat = src.chance(1, 4) ? src.bytes(12) : src.over("*?[]\\^-ab", 10), text = src.chance(1, 4) ? src.bytes(12) : src.over("ab]-\\*", 8);
  if (std::count(pat.begin(), pat.end(), '*') > 5) c.discard();
  c.note("pattern " + quote(pat) + " text " + quote(text)); c.nontrivial(pat.find_first_of("[\\") != pat.npos);
  Exact ep(pat), et(text); bool got = stringmatchlen(ep.view().data(), ep.view().size(), et.view().data(), et.view().size(), 0);
  bool again = stringmatchlen(pat.data(), pat.size(), text.data(), text.size(), 0); c.equal(again, got, "result depends on what follows the strings in memory");
  std::string junkP = pat + "*]a", junkT = text + "ab]"; c.equal((bool) stringmatchlen(junkP.data(), pat.size(), junkT.data(), text.size(), 0), got, "result depends on what follows the strings in memory");
  if (got) c.require(startsWith(text, extractPatternPrefix(pat)), "text matches but lies outside the extracted prefix");
  // metamorphic: every text matches pattern+"*" if it matches pattern, when the pattern is well terminated
  if (got && pat.find_first_of("[\\") == pat.npos) c.require(stringmatchlen((pat + "*").data(), pat.size() + 1, text.data(), text.size(), 0), "adding a star lost a match");
}

// ------------------------------------------------------------------------------------------------ S05
VF_RULE(S05, "Random sequences of insertions, removals, pops and clears on the expiration index, checked after every step against an ordered model. Non-trivial: at least 4 operations with two leases outstanding at once.");
VF_PROP(S05, cache_model, 60000, 2000000, vf::kNone) {
  ExpirationEventCache cache; std::multimap<uint64_t, std::string> order; std::map<std::string, uint64_t> model; size_t peak = 0, ops = 0;
  auto name = [&] { return "l" + std::to_string(src.draw(6)); };
  for (int i = 0; i < 40 && src.more(14); i++) {
    VF_SPAN(src); ops++;
    switch (src.weighted({5, 3, 2, 1})) {
      case 0: { std::string n = name(); uint64_t d = src.chance(1, 6) ? edge64(src) : src.draw(4); bool dup = model.count(n); bool threw = false;
        c.note("insert " + std::to_string(d) + " " + n); try { cache.insert(d, n); } catch (const FatalException &) { threw = true; }
        c.equal(threw, dup, "refusal of a second deadline for one lease"); if (!dup) { model[n] = d; order.emplace(d, n); } break; }
      case 1: { std::string n = name(); uint64_t d = model.count(n) && src.chance(3, 4) ? model[n] : src.draw(4); bool have = model.count(n) && model[n] == d; bool threw = false;
        c.note("remove " + std::to_string(d) + " " + n); try { cache.remove(d, n); } catch (const FatalException &) { threw = true; }
        c.equal(threw, !have, "refusal to remove an absent event");
        if (have) { model.erase(n); for (auto it = order.lower_bound(d); it != order.upper_bound(d); ++it) if (it->second == n) { order.erase(it); break; } } break; }
      case 2: if (model.empty()) break; { c.note("pop_front"); std::string n = cache.getFrontLease(); uint64_t d = cache.getFrontDeadline(); c.require(model.count(n) && model[n] == d, "front is not an outstanding event"); cache.pop_front(); model.erase(n); for (auto it = order.lower_bound(d); it != order.upper_bound(d); ++it) if (it->second == n) { order.erase(it); break; } } break;
      default: if (src.chance(1, 4)) { c.note("clear"); cache.clear(); model.clear(); order.clear(); }
    }
    peak = std::max(peak, model.size());
    c.equal(cache.size(), model.size(), "size"); c.equal(cache.empty(), model.empty(), "empty");
    if (!model.empty()) { c.equal(cache.getFrontDeadline(), order.begin()->first, "earliest deadline"); std::string f = cache.getFrontLease(); c.require(model.count(f) && model[f] == order.begin()->first, "front lease " + f + " does not have the earliest deadline"); }
  }
  // drain: exactly the outstanding events, in order
  while (!model.empty()) { c.require(!cache.empty(), "events lost"); c.equal(cache.getFrontDeadline(), order.begin()->first, "drain order"); std::string f = cache.getFrontLease(); uint64_t d = order.begin()->first; c.require(model.count(f) && model[f] == d, "drained an unknown event"); cache.pop_front(); model.erase(f); for (auto it = order.lower_bound(d); it != order.upper_bound(d); ++it) if (it->second == f) { order.erase(it); break; } }
  c.require(cache.empty() && cache.size() == 0, "events left over"); c.nontrivial(ops >= 4 && peak >= 2);
}

// ------------------------------------------------------------------------------------------------ S06
VF_RULE(S06, "Random transactions updating several versioned hashes; the published bytes are decoded by an independent protocol reader. Non-trivial: at least two updates.");
static bool readLine(std::string_view &s, std::string &line) { size_t p = s.find("\r\n"); if (p == s.npos) return false; line = std::string(s.substr(0, p)); s.remove_prefix(p + 2); return true; }
static bool readBulk(std::string_view &s, std::string &v) { std::string l; if (!readLine(s, l) || l.empty() || l[0] != '$') return false; size_t n = strtoull(l.c_str() + 1, nullptr, 10); if (s.size() < n + 2) return false; v = std::string(s.substr(0, n)); s.remove_prefix(n); if (s.substr(0, 2) != "\r\n") return false; s.remove_prefix(2); return true; }
VF_PROP(S06, revision_roundtrip, 60000, 2000000, vf::kNone) {
  VersionedHashRevisionTracker tr; std::map<std::string, std::pair<uint64_t, std::vector<std::pair<std::string, std::string>>>> model; size_t n = 0;
  std::vector<std::unique_ptr<std::string>> keep; c.require(tr.empty(), "a new tracker is not empty");
  auto hold = [&](std::string s) -> std::string_view { keep.push_back(std::make_unique<std::string>(std::move(s))); return *keep.back(); };
  bool big = src.chance(1, 50); if (big) c.label("many updates");
  for (int i = 0; i < (big ? 400 : 20) && src.more(big ? 150 : 6); i++) {
    VF_SPAN(src);
    std::string key = src.over("ab#", big ? 1 : 2); uint64_t rev; auto it = model.find(key); bool wrong = false;
    if (it == model.end()) rev = 1 + (src.raw64() >> (1 + src.draw(62))); else { rev = it->second.first; wrong = src.chance(1, 12); }
    std::string f = src.bytes(12), v = src.bytes(16);
    c.note("key " + quote(key) + " revision " + std::to_string(rev) + (wrong ? "+1" : "") + " field " + quote(f) + " value " + quote(v));
    if (wrong) { bool threw = false; try { tr.forKey(key).setRevisionNumber(rev + 1); } catch (const FatalException &) { threw = true; } c.require(threw, "two revision numbers accepted for one key in one transaction"); continue; }
    tr.forKey(hold(key)).setRevisionNumber(rev); tr.forKey(hold(key)).addUpdate(hold(f), hold(v)); model[key].first = rev; model[key].second.push_back({f, v}); n++;
  }
  c.nontrivial(n >= 2); c.equal(tr.empty(), model.empty(), "emptiness");
  size_t seen = 0;
  for (auto it = tr.begin(); it != tr.end(); ++it) {
    seen++; c.require(model.count(it->first), "revision for a key that was not updated"); auto &m = model[it->first];
    std::string ser = it->second.serialize(); std::string_view s = ser; std::string l;
    c.require(readLine(s, l) && l == "*2", "not a two-element array: " + quote(ser)); c.require(readLine(s, l), "truncated"); c.equal(l, ":" + std::to_string(m.first), "revision number");
    c.require(readLine(s, l), "truncated"); c.equal(l, "*" + std::to_string(2 * m.second.size()), "number of elements");
    for (auto &u : m.second) { std::string f, v; c.require(readBulk(s, f) && readBulk(s, v), "truncated update"); c.equal(f, u.first, "field"); c.equal(v, u.second, "value"); }
    c.require(s.empty(), "trailing bytes after a revision");
  }
  c.equal(seen, model.size(), "number of keys with revisions");
}

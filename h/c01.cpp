// C01: message definition lines.
#include "lib.h"
#include "parser/dbcscanner.h"
static const char* SIGA = " SG_ A : 0|8@1+ (1,0) [0|0] \"\" N2\n";
static const MessageDescriptor_t* scan(DbcScanner& sc, const S& text, size_t& n) { std::stringstream s(text); sc.TrimDbcText(s); n = sc.dblist.msgs.size(); return n ? sc.dblist.msgs[0] : nullptr; }
static void expect(const S& line, bool valid, uint64_t id, const S& name, uint64_t dlc, const S* tx, bool sig) {
  DbcScanner sc; size_t n; auto* m = scan(sc, "VERSION \"1.2\"\n\nBU_: N1 N2\n\n" + line + "\n" + (sig ? SIGA : "") + "\nCM_ \"end\";\n", n);
  if (n == 0) { sym_assert(!valid, "valid message line yields a message"); sym_cover("rejected"); return; }
  sym_assert(n == 1, "one message"); sym_assert(valid, "invalid message line yields no message");
  sym_assert(same(m->Name, name), "name"); sym_assert(m->MsgID == (uint32_t)(id & 0x1FFFFFFF), "29-bit identifier"); sym_assert((m->IsExt != 0) == ((id & 0x80000000u) != 0), "standard/extended flag"); sym_assert(m->DLC == dlc, "data length");
  sym_assert(m->Signals.size() == (sig ? 1u : 0u), "signal belongs to the message");
  if (tx) { sym_assert(m->TranS.size() == 1, "one transmitter"); sym_assert(same(m->TranS[0], *tx), "transmitter"); } else sym_assert(m->TranS.empty(), "no transmitter");
  sym_cover("accepted");
}
static bool okid(uint64_t v) { return (v & 0x60000000) == 0; }
// all numbers symbolic, any number of digits
extern "C" void numbers() {
  int n = (int)sym_concretize(sym_u64("id digits", 1, 10)), k = (int)sym_concretize(sym_u64("dlc digits", 1, TIER_THOROUGH ? 10 : 5)); uint64_t id, dlc;
  S ti = symdec("id", n, id, 0xFFFFFFFF), td = symdec("dlc", k == 5 && !TIER_THOROUGH ? 9 : k, dlc, 0x7FFFFFFF); S nm = symident("name", 1 + (n + k) % 4, 2), tx = symident("tx", 1 + n % 3, 2);
  int sp = (n + k) % 3; // line variants
  S line = S("BO_ ") + ti + " " + nm + ": " + td + " " + tx + (sp == 2 ? " \r" : "");
  expect(line, okid(id) & (dlc >= 1) & (dlc <= 64), id, nm, dlc, &tx, n % 2);
}
// names of any characters
extern "C" void names() {
  int n = (int)sym_concretize(sym_u64("name length", 1, TIER_THOROUGH ? 12 : 6)), k = (int)sym_concretize(sym_u64("node length", 0, TIER_THOROUGH ? 8 : 4));
  uint64_t id, dlc; S nm = symident("name", n), tx = symident("tx", k), ti = symdec("id", 3, id), td = symdec("dlc", 1, dlc);
  S line = "BO_ " + ti + " " + nm + ": " + td + (k ? " " + tx : n % 2 ? " " : ""); if (k && n % 3 == 1) line += "  ";
  expect(line, dlc >= 1, id, nm, dlc, k ? &tx : nullptr, (n + k) % 2);
}
// lines lacking a field
extern "C" void lacking() {
  int f = (int)sym_concretize(sym_u64("form", 0, 13)), n = (int)sym_concretize(sym_u64("name length", 1, 3)); uint64_t id, dlc;
  S nm = symident("name", n), tx = symident("tx", 1 + n % 2), ti = symdec("id", n, id), td = symdec("dlc", 1 + n % 2, dlc, 64); sym_assume(dlc >= 1); S line; bool ok = false, hastx = true;
  switch (f) {
    case 0: line = "BO_ "; break; case 1: line = "BO_ " + ti; break; case 2: line = "BO_ " + ti + " " + nm; break; case 3: line = "BO_ " + ti + " " + nm + ":"; break;
    case 4: line = "BO_ " + ti + " " + nm + ": "; break; case 5: line = "BO_ " + ti + " " + nm + ": " + tx; break; case 6: line = "BO_ " + ti + " : " + td + " " + tx; break;
    case 7: line = "BO_ " + ti + ": " + td + " " + tx; break; case 8: line = "BO_ " + nm + ": " + td + " " + tx; break; case 9: line = "BO_"; break;
    case 10: line = "BO_ " + ti + " " + nm + ": -" + td + " " + tx; break; case 11: line = "BO_ " + ti + " " + nm + ": 0 " + tx; break;
    case 12: line = "BO_ " + ti + " " + nm + ": " + td; ok = true; hastx = false; break; // the transmitter is optional
    case 13: line = "BO_ " + ti + " " + nm + ": " + td + " " + tx; ok = true; break;
  }
  expect(line, ok, id, nm, dlc, hastx ? &tx : nullptr, false); sym_cover(f == 8 ? "no identifier" : f == 6 || f == 7 ? "no name" : f < 6 ? "no length" : "other");
}
// several lines: each one stands for itself
extern "C" void several() {
  int k = (int)sym_concretize(sym_u64("bad", 0, 3)); DbcScanner sc; S d = "VERSION \"1.2\"\n"; uint64_t id[3], dlc[3]; S nm[3], tx[3]; bool ok[3]; 
  for (int i = 0; i < 3; i++) {
    S t = symdec("id" + num(i), 10, id[i], 0xFFFFFFFF); S l = symdec("dlc" + num(i), 2, dlc[i]); nm[i] = symident("name" + num(i), 2, 2); tx[i] = symident("tx" + num(i), 1 + i, 2);
    if (k != i) sym_assume(okid(id[i]) & (dlc[i] <= 64)); ok[i] = k != i || sym_concretize(okid(id[i]) & (dlc[i] <= 64));
    d += "\nBO_ " + t + " " + nm[i] + ": " + l + " " + tx[i] + "\n"; if (i != 1) d += SIGA;
  }
  size_t n; scan(sc, d, n); size_t want = ok[0] + ok[1] + ok[2]; sym_assert(n == want, "exactly the valid lines yield messages");
  size_t q = 0; for (int i = 0; i < 3; i++) if (ok[i]) {
    auto* m = sc.dblist.msgs[q++]; sym_assert(same(m->Name, nm[i]), "name"); sym_assert(m->MsgID == (uint32_t)(id[i] & 0x1FFFFFFF), "identifier"); sym_assert(m->IsExt == 1, "extended"); sym_assert(m->DLC == dlc[i], "data length");
    sym_assert(m->TranS.size() == 1 && same(m->TranS[0], tx[i]), "transmitter"); sym_assert(m->Signals.size() == (i != 1 ? 1u : 0u), "its own signals");
  }
  sym_cover("several");
}

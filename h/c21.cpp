// C21: no input text makes the scanner crash. Its code runs with every undefined-behaviour check of
// the compiler (also float conversions) and the memory checks of the engine.
#include "lib.h"
#include "parser/dbcscanner.h"
static unsigned sink;
static void touch(DbcScanner& sc) { // every string of the result can be read
  for (auto* m : sc.dblist.msgs) {
    for (auto& x : m->TranS) sink += (unsigned)x.size(); for (auto& x : m->RecS) sink += (unsigned)x.size();
    sink += (unsigned)(m->Name.size() + m->CommentText.size() + m->DLC); if (m->RollSig) sink += m->RollSig->LengthBit; if (m->CsmSig) sink += m->CsmSig->LengthBit + (unsigned)m->CsmMethod.size();
    for (auto& s : m->Signals) { sink += (unsigned)(s.Name.size() + s.Unit.size() + s.CommentText.size() + s.ValueText.size() + s.NameFloat.size() + s.StartBit + s.LengthBit); for (auto& v : s.ValDefs.vpairs) sink += (unsigned)v.first.size(); }
  }
}
static void scan(const S& t) { DbcScanner sc; std::stringstream s(t); sc.TrimDbcText(s); touch(sc); }
static S bytes(const S& n, int k) { S r; for (int i = 0; i < k; i++) r += (char)sym_u64((n + "#" + num(i)).c_str(), 0, 255); return r; }
static const char* HEAD = "VERSION \"1.2\"\n\nBO_ 100 M1: 8 N1\n SG_ A : 0|8@1+ (1,0) [0|0] \"\" N2\n SG_ B : 8|8@1+ (2,1) [0|0] \"\" N2\n\n";
static const char* PRE[] = {"", "BO_ ", " SG_ ", " SG_ A : ", "CM_ SG_ 100 A \"", "VAL_ 100 A ", "BA_ \"GenMsgCycleTime\" BO_ ", "BO_TX_BU_ ", "VERSION ", "CM_ ", "BA_ ", "VAL_ ", "BO_ 100 M2: ", " SG_ C : 16|8@1+ ", " SG_ C : 16|8@1+ (1,0) [0|0] ", "CM_ SG_ 100 A \"<", "BO_TX_BU_ 100 :", "CM_ SG_ 100 A \"<Checksum:"};
static const char* POST[] = {"\n", ";\n", "\" ;\n", "", ">\";\n"};
extern "C" void lines() { // a line start, then any bytes, alone and behind a message
  int p = (int)sym_concretize(sym_u64("start", 0, 17)), e = (int)sym_concretize(sym_u64("end", 0, 4)), n = (int)sym_concretize(sym_u64("bytes", 0, TIER_THOROUGH ? 4 : 2)); bool head = p != 12 && (p + e) % 4; if (!TIER_THOROUGH && n == 2 && (p * 5 + e) % 2) return;
  S t = head ? HEAD : ""; t += PRE[p] + bytes("b", n) + POST[e]; if (e % 2) t += "CM_ BO_ 100 \"x\";\n"; scan(t); sym_cover("lines");
}
static const char* FILE0 = "VERSION \"1.2\"\nBO_ 100 M1: 8 N1\n SG_ A M : 0|8@1+ (1,0) [0|0] \"V\" N2\n SG_ B m1 : 8|8@0- (-0.5,1e2) [0|0] \"\" N2,N3\nBO_TX_BU_ 100 : N1,N4;\nCM_ BO_ 100 \"c\";\nCM_ SG_ 100 A \"<Checksum:X:1>\";\nBA_ \"GenMsgCycleTime\" BO_ 100 5;\nVAL_ 100 B 1 \"x\" -2 \"y\" ;\n";
extern "C" void inner() { // any byte in place of, or between, the characters of a whole file; also cut there
  S f = FILE0; int at = (int)sym_concretize(sym_u64("place", 0, f.size())), how = (int)sym_concretize(sym_u64("how", 0, 2)); if (!TIER_THOROUGH && (at + how) % 2) return;
  S b = bytes("b", 1); S t = how == 0 ? f.substr(0, (size_t)at) + b : how == 1 ? f.substr(0, (size_t)at) + b + f.substr((size_t)at) : f.substr(0, (size_t)at) + b + (at < (int)f.size() ? f.substr((size_t)at + 1) : S()); scan(t); sym_cover("inner");
}
static S digs(const S& n, int k, char mid = '9') { S r; for (int i = 0; i < k; i++) r += k > (TIER_THOROUGH ? 11 : 4) && i > (TIER_THOROUGH ? 1 : 0) && i < k - (k > 11 && TIER_THOROUGH ? 2 : 1) ? mid : (char)sym_u64((n + "#" + num(i)).c_str(), '0', '9'); return r; }
// any number in every numeric field
extern "C" void fields() {
  static const int N[] = {1, 2, 3, 5, 9, 10, 11, 18, 19, 20, 25}; int w = (int)sym_concretize(sym_u64("field", 0, 11)), n = N[sym_concretize(sym_u64("digits", 0, 10))], sg = (int)sym_concretize(sym_u64("sign", 0, 2)); if (!TIER_THOROUGH && sg && (w + n + sg) % 3) return;
  S x = (sg == 1 ? "-" : sg == 2 ? "+" : "") + digs("d", n, w % 2 ? '9' : '0'); auto F = [&](int k, const char* d) { return k == w ? x : S(d); };
  S t = "VERSION \"" + F(0, "1") + "." + F(1, "2") + "\"\nBO_ " + F(2, "100") + " M1: " + F(3, "8") + " N1\n SG_ A : " + F(4, "0") + "|" + F(5, "8") + "@1+ (1,0) [0|0] \"\" N2\n SG_ B : " + F(6, "15") + "|8@0- (2,-1) [" + F(7, "0") + "|" + F(8, "0") + "] \"\" N2\n";
  t += "BO_TX_BU_ " + F(2, "100") + " : N1,N4;\nCM_ SG_ " + F(2, "100") + " A \"<Checksum:X:" + F(9, "1") + ">\";\nBA_ \"GenMsgCycleTime\" BO_ " + F(2, "100") + " " + F(10, "5") + ";\nVAL_ " + F(2, "100") + " B " + F(11, "1") + " \"x\" ;\n";
  scan(t); sym_cover("fields");
}
static const char* FL[] = {"0", "0.0", "-0.0", "1e400", "-1e400", "1e-400", "1e308", "nan", "inf", "-inf", "1e19", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "99999999999999999999999999999999", "1e18", ".", "-", "e", "1e", "--1", "+1", "0x10", "0.000000001", "4294967296", "2147483648", "-2147483649", "1e9999999999", "5E-1", "1.7976931348623157e308", "0.1e1", "18446744073709551616", "1,5"};
extern "C" void scales() { // extreme factors and offsets, any length and sign
  int a = (int)sym_concretize(sym_u64("factor", 0, 32)), b = (int)sym_concretize(sym_u64("offset", 0, 32)); bool sg = (a + b) % 2; int len = 1 + (a * 33 + b * 5) % 64;
  scan("VERSION \"1.2\"\nBO_ 100 M1: 64 N1\n SG_ A : 0|" + num(len) + "@1" + (sg ? "-" : "+") + " (" + FL[a] + "," + FL[b] + ") [" + FL[b] + "|" + FL[a] + "] \"\" N2\n SG_ C : 65|" + num(1 + (a * 5 + b * 3) % 64) + "@1" + (sg ? "+" : "-") + " (" + FL[a] + ",0) [0|0] \"\" N2\n"); sym_cover("scales");
}

SEEDS = {}
D0 = 'VERSION "1.2"\n\nBU_: N1 N2\n\n'
G, S, LP, SC, U, F = 'src/codegen/c-main-generator.cpp', 'src/codegen/c-sigprinter.cpp', 'src/parser/dbclineparser.cpp', 'src/parser/dbcscanner.cpp', 'src/codegen/c-util-generator.cpp', 'src/helpers/formatter.cpp'
def sd(i, prop, f, a, b, needs, breaks, **k): SEEDS[i] = dict(property=prop, edits=[(f, a, b)] if isinstance(f, str) else f, needs=needs, breaks=breaks, **k)
MAIN = '#include "out/lib/drv.c"\n'
sd('c01-name-letter', 'C01', LP, 'regMessage = "[^A-Za-z0-9_.-]"', 'regMessage = "[^A-Za-y0-9_.-]"', 'a message name containing the letter z', 'the name is cut and the following fields are taken from wrong places',
  dbc=D0 + 'BO_ 100 Maz1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\n', sh='grep -q "Maz1_DLC (4U)" out/lib/drv.h\n')
sd('c03-phys-raw-type', 'C03', G, 'fwriter.Append("  %s %s;", PrintType((int)sig.TypePhys).c_str(), sig.NameFloat.c_str());', 'fwriter.Append("  %s %s;", PrintType((int)((sig.Factor > 0) ? sig.TypePhys : sig.TypeRo)).c_str(), sig.NameFloat.c_str());',
  'an integer-scaled signal with negative factor', 'the physical field has the raw type and cannot hold the physical values',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (-2,0) [0|0] "" N2\n\n', sh='grep -q "int16_t A_phys" out/lib/drv.h\n')
sd('c05-unmasked', 'C05', S, 'snprintf(workbuff, WBUFF_LEN, "(_m->%s & (%s))", sig->Name.c_str(), msk[slen].c_str());', 'snprintf(workbuff, WBUFF_LEN, "(_m->%s)", sig->Name.c_str());',
  'a field value wider than its signal, which starts a byte and ends inside it', 'bits of the next signal in the byte are overwritten',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|3@1+ (1,0) [0|0] "" N2\n SG_ B : 3|5@1+ (1,0) [0|0] "" N2\n\n',
  c=MAIN + 'int main(void) { M1_t m = {0}; uint8_t d[8], l, e; m.A = 9; m.B = 0; Pack_M1_drv(&m, d, &l, &e); return d[0] != 1; }\n')
sd('c07-offset-precision', 'C07', S, 'const std::string prtOffset = prt_double(sig->Offset, 9);', 'const std::string prtOffset = prt_double(sig->Offset, 6);', 'an offset with more than six decimals', 'the conversion uses a truncated offset',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (0.5,0.0000005) [0|0] "" N2\n\n', sh='grep "A_ro_fromS" out/lib/drv.h | grep -q "0.0000005"\n')
sd('c07-hasphys', 'C07', SC, 'if (sig.IsDoubleSig || sig.IsSimpleSig != true)', 'if (sig.IsDoubleSig || (sig.IsSimpleSig != true && sig.Factor != 1))', 'a message whose only scaled signals have factor one and an integer offset, packed with physical fields enabled',
  'the physical value is not converted before packing',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (1,5) [0|0] "" N2\n\n', cflags='-DDRV_USE_SIGFLOAT', conf='#pragma once\n#include <stdint.h>\ntypedef uint32_t ubitext_t; typedef int32_t bitext_t; typedef double sigfloat_t;\n',
  c=MAIN + 'int main(void) { M1_t m = {0}; uint8_t d[8], l, e; m.A_phys = 9; Pack_M1_drv(&m, d, &l, &e); return d[0] != 4; }\n')
sd('c08-motorola-overrun', 'C08', [(S, 'to_bytes[0] = "Error in DBC file !!!! Dlc of this message must be greater.";\n        return to_bytes[0];\n      }\n\n      tosigexpr += " | ";', 'to_bytes[0] += " | (0U)";\n        return tosigexpr;\n      }\n\n      tosigexpr += " | ";')], None, None,
  'a Motorola signal starting inside the frame and running over its end by a whole byte', 'the driver compiles and silently cuts the signal',
  dbc=D0 + 'BO_ 100 M1: 2 N1\n SG_ A : 7|24@0+ (1,0) [0|0] "" N2\n\n', sh='! gcc -w -c -Iout/lib -Iout/conf -Iout/inc out/lib/drv.c -o /dev/null\n')
sd('c11-lower-only', 'C11', G, 'fwriter.Append("  _m->mon1.roll_error = (_m->%s != _m->%s_expt);"', 'fwriter.Append("  _m->mon1.roll_error = (_m->%s < _m->%s_expt);"', 'a received counter ahead of the expected one', 'skipped counter values are not reported',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|4@1+ (1,0) [0|0] "" N2\n\nCM_ SG_ 100 A "<RollingCounter>";\n', cflags='-DDRV_USE_DIAG_MONITORS -DDRV_AUTO_ROLL',
  c=MAIN + '#include "out/usr/drv-fmon.c"\nint main(void) { M1_t m = {0}; uint8_t d[8] = {5}; Unpack_M1_drv(&m, d, 4); return m.mon1.roll_error != 1; }\n')
sd('c12-stale-with-counter', 'C12', [(G, 'if (sgs->msg.CsmSig != nullptr)\n  {\n    // code for clearing checksum', 'if (sgs->msg.CsmSig != nullptr && sgs->msg.RollSig == nullptr)\n  {\n    // code for clearing checksum'), ], None, None,
  'a message with checksum and rolling counter, packed a second time', 'the previous checksum is hashed and combined with the new one',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n SG_ R : 8|4@1+ (1,0) [0|0] "" N2\n\nCM_ SG_ 100 A "<Checksum:kSum:1>";\nCM_ SG_ 100 R "<RollingCounter>";\n', cflags='-DDRV_AUTO_CSM -DDRV_AUTO_ROLL',
  conf='#pragma once\n#include <stdint.h>\ntypedef uint32_t ubitext_t; typedef int32_t bitext_t;\nenum { kSum = 1 };\nstatic int ok = 1;\nstatic uint8_t hh(const uint8_t* d) { if (d[0]) ok = 0; return 0x11 * (d[1] + 1); }\n#define GetFrameHash(a,b,c,d,e) hh(a)\n',
  c=MAIN + 'int main(void) { M1_t m = {0}; uint8_t d[8], l, e; Pack_M1_drv(&m, d, &l, &e); Pack_M1_drv(&m, d, &l, &e); return !ok; }\n')
sd('c14-extended-cycle', 'C14', LP, 'attr->MsgId = clear_msgid(static_cast<uint32_t>(atoll(items[3].c_str())));', 'attr->MsgId = static_cast<uint32_t>(atoll(items[3].c_str()));', 'a cycle time of an extended message', 'the cycle time is lost',
  dbc=D0 + 'BO_ 2147483748 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\nBA_ "GenMsgCycleTime" BO_ 2147483748 70;\n', sh='grep -q "M1_CYC (70U)" out/lib/drv.h\n')
sd('c14-signal-comment-spaces', 'C14', LP, 'if (meta[1] == "SG_" && meta.size() == 4)', 'if (meta[1] == "SG_" && meta.size() == 4 && meta[3].size() > 1)', 'a comment of a signal whose name has one character', 'the comment is lost',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\nCM_ SG_ 100 A "hello";\n', sh='grep -q "// hello" out/lib/drv.h\n')
sd('c15-empty-text', 'C15', LP, 'kRegValTable = "[^\\\\s\\"]+|\\"([^\\"]*)\\""', 'kRegValTable = "[^\\\\s\\"]+|\\"([^\\"]+)\\""', 'a value description with an empty text', 'the whole table is lost or its pairs are shifted',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\nVAL_ 100 A 0 "" 1 "On" ;\n', sh='grep -q "define A_M1_On (1)" out/lib/drv.h\n')
sd('c16-leading-space', 'C16', F, "else if (s[i] == ' ')", "else if (s[i] == ' ' && (ret.length() > 0 || i + 1 < s.length()))", 'a text of one space', 'the text has no name although a space maps to an underscore',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\nVAL_ 100 A 1 " " ;\n', sh='grep -q "define A_M1__ (1)" out/lib/drv.h\n')
sd('c17-last-nine', 'C17', F, "if (ch > '0' && ch <= '9')", "if (ch > '0' && (ch < '9' || j != 3))", 'a number with exactly four decimals, the last one nine', 'the last decimal is lost',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (0.0019,0) [0|0] "" N2\n\n', sh='grep "A_ro_CovFactor" out/lib/drv.h | grep -q "0.0019"\n')
sd('c18-inherited-value', 'C18', 'src/options-parser.cpp', '      pair.second.clear();\n', '', 'an option without its value behind another option with one', 'the option takes over the value of the option before it',
  demo='printf \'%s\' "" > in.dbc\nmkdir w; cd w\n"$BIN" -dbc ../in.dbc -drvname -out o -rw > log 2>&1\n! [ -e o/lib ]\n')
sd('c19-last-number', 'C19', 'src/codegen/fs-creator.cpp', 'dirnum < 1000', 'dirnum < 999', 'all directories up to 998 in use', 'the last free number is not used',
  demo='printf \'BO_ 100 M1: 4 N1\\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\\n\' > in.dbc\nmkdir out; for i in $(seq -w 0 998); do mkdir out/$i; done\n"$BIN" -dbc in.dbc -out out -drvname drv > log 2>&1\n[ -e out/999/lib/drv.h ]\n')
sd('c20-both-once', 'C20', [(U, "      rx.push_back(m);\n    }\n\n    v = std::find_if(groups.Tx", "      rx.push_back(m);\n      continue;\n    }\n\n    v = std::find_if(groups.Tx")], None, None, 'a node which transmits and receives the same message', 'the node lacks the message in its transmit structure',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2,N1\n\n', opts='-nodeutils', sh='grep -q n1_drv_tx_t out/butl/n1_drv-binutil.h\n')
ASAN = 'SRC="$OLDPWD/src"\ng++ -std=c++17 -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS -I"$SRC" -o t $(find "$SRC" -name "*.cpp" ! -path "*/tests/*") || exit 9\nexport ASAN_OPTIONS=detect_leaks=0\n./t -dbc in.dbc -out out -drvname drv -rw > log 2>&1\n'
sd('c21-short-table', 'C21', LP, "if ((items.size() >= 3) && (items.back()", "if ((items.size() >= 2) && (items.back()", 'a value table line without number and name', 'elements behind the end of the list are read',
  demo="printf 'BO_ 100 M1: 4 N1\\n SG_ A : 0|8@1+ (1,0) [0|0] \"\" N2\\n\\nVAL_ ;\\n' > in.dbc\n" + ASAN)
sd('c21-one-quote', 'C21', LP, "if (tailpart.size() == 3)", "if (tailpart.size() >= 2)", 'a signal line with a single quote', 'elements behind the end of the list are read',
  demo="printf 'BO_ 100 M1: 4 N1\\n SG_ A : 0|8@1+ (1,0) [0|0] \"u\\n\\n' > in.dbc\n" + ASAN)
sd('c22-tail-tab', 'C22', 'src/codegen/filewriter.cpp', "if (c != '\\n')", "if (c != '\\n' && c != '\\t')", 'a comment text ending with a tab', 'the code line behind the comment becomes part of it',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\nCM_ SG_ 100 A "hello\t";\n', sh='grep -q "^  uint8_t A;" out/lib/drv.h\n')
sd('c23-separators', 'C23', SC, '(\\\\d+)\\\\D+(\\\\d+)', '(\\\\d+)\\\\D(\\\\d+)', 'version numbers separated by more than one character', 'the version is read as 0.0',
  dbc='VERSION "3. 4"\n\nBU_: N1 N2\n\nBO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\n', sh='grep -q "VER_DRV_MAJ (3U)" out/lib/drv.h\n')
sd('c24-sort-narrow', 'C24', SC, 'return a.StartBit < b.StartBit;', 'return static_cast<uint8_t>(a.StartBit) < static_cast<uint8_t>(b.StartBit);', 'a signal beyond bit 255 of a long frame', 'the signals are not in the order of their start bits',
  dbc=D0 + 'BO_ 100 M1: 64 N1\n SG_ A : 10|8@1+ (1,0) [0|0] "" N2\n SG_ B : 256|8@1+ (1,0) [0|0] "" N2\n\n', sh='a=$(grep -n "uint8_t A;" out/lib/drv.h | head -1 | cut -d: -f1); b=$(grep -n "uint8_t B;" out/lib/drv.h | head -1 | cut -d: -f1); [ $a -lt $b ]\n')
sd('c24-rejected-keeps', 'C24', [(SC, "        delete pMsg;\n        pMsg = nullptr;\n", "        delete pMsg;\n        pMsg = dblist.msgs.empty() ? nullptr : dblist.msgs.back();\n        if (pMsg) dblist.msgs.pop_back();\n")], None, None, 'signals behind a rejected message which is not the first one', 'the signals are added to the message before',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\nBO_ 101 M2: 0 N1\n SG_ B : 8|8@1+ (1,0) [0|0] "" N2\n\n', sh='! grep -q "uint8_t B;" out/lib/drv.h\n')
sd('c25-roll-guard', 'C25', [(G, '''    fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
    fwriter.Append("  _m->mon1.roll_error''', '''    fwriter.Append("#ifdef %s", fdesc->gen.usemon_def.c_str());
    fwriter.Append("  _m->mon1.roll_error''')], None, None, 'a driver with a counter signal built with monitors and without AUTO_ROLL', 'the driver does not compile',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|4@1+ (1,0) [0|0] "" N2\n\nCM_ SG_ 100 A "<RollingCounter>";\n', sh='gcc -w -c -DDRV_USE_DIAG_MONITORS -Iout/lib -Iout/conf -Iout/inc out/lib/drv.c -o /dev/null\n')
sd('c26-short-buffer', 'C26', F, 'kMaxWorkArrLength = 4096', 'kMaxWorkArrLength = 160', 'long names', 'names are cut in the generated code',
  dbc=D0 + 'BO_ 100 M%s: 4 N1\n SG_ A%s : 0|8@1+ (1,0) [0|0] "" N2\n\nVAL_ 100 A%s 1 "%s" ;\n' % ('m' * 60, 'a' * 60, 'a' * 60, 'v' * 60), sh='grep -q "ifndef A%s_M%s_%s$" out/lib/drv.h\n' % ('a' * 60, 'm' * 60, 'v' * 60))
sd('c26-table-width', 'C26', G, 'if (s.Name.size() > max_sig_name_len)', 'if (s.Name.size() > max_sig_name_len && s.ValDefs.vpairs.empty())', 'a signal with value table and a name above 50 characters', 'the generator aborts',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A%s : 0|8@1+ (1,0) [0|0] "" N2\n\nVAL_ 100 A%s 1 "on" ;\n' % ('a' * 60, 'a' * 60), sh='grep -q "A%s;" out/lib/drv.h\n' % ('a' * 60))

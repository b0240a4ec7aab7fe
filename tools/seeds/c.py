SEEDS = {}
D0 = 'VERSION "1.2"\n\nBU_: N1 N2\n\n'
G, S, LP, SC, U, F = 'src/codegen/c-main-generator.cpp', 'src/codegen/c-sigprinter.cpp', 'src/parser/dbclineparser.cpp', 'src/parser/dbcscanner.cpp', 'src/codegen/c-util-generator.cpp', 'src/helpers/formatter.cpp'
M, A, FS = 'src/codegen/mon-generator.cpp', 'src/app.cpp', 'src/codegen/fs-creator.cpp'
def sd(i, prop, f, a, b, needs, breaks, **k): SEEDS[i] = dict(property=prop, edits=[(f, a, b)] if isinstance(f, str) else f, needs=needs, breaks=breaks, **k)
MAIN = '#include "out/lib/drv.c"\n'
ONE = 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\n'
def pf(t): return "printf '%s'" % t.replace('%', '%%').replace('\n', '\\n').replace('\r', '\\r').replace('\t', '\\t').replace("'", "'\\''")
G2 = '"$BIN" -dbc %s -out %s -drvname %s -rw %s > log 2>&1 || exit 9\n'
sd('c27-both-differ', 'C27', G, 'fwriter.Append("#if (%s != (%uU)) || (%s != (%uU))",', 'fwriter.Append("#if (%s != (%uU)) && (%s != (%uU))",', 'driver files of versions with the same major number', 'the mixed files compile',
  demo=pf('VERSION "1.2"\n' + ONE) + ' > a.dbc\n' + pf('VERSION "1.3"\n' + ONE) + ' > b.dbc\n' + G2 % ('a.dbc', 'a', 'drv', '') + G2 % ('b.dbc', 'b', 'drv', '') + 'gcc -w -c -Ia/lib -Ia/conf -Ia/inc a/lib/drv.c -o /dev/null || exit 1\ncp b/lib/drv.c a/lib/\n! gcc -w -c -Ia/lib -Ia/conf -Ia/inc a/lib/drv.c -o /dev/null 2> /dev/null\n')
sd('c27-util-minor', 'C27', U, 'gdesc->verhigh_def.c_str(), p_dlist->ver.hi, gdesc->verlow_def.c_str(), p_dlist->ver.low);', 'gdesc->verhigh_def.c_str(), p_dlist->ver.hi, gdesc->verlow_def.c_str(), p_dlist->ver.low % 1000);', 'a minor version of four digits', 'the utility does not compile with its own driver',
  dbc='VERSION "1.2024"\n\n' + ONE, sh='gcc -w -c -Iout/lib -Iout/conf -Iout/inc -Iout/butl out/butl/drv-binutil.c -o /dev/null\n')
sd('c28-no-cycle-default', 'C28', SC, '  message->Cycle = 0;\n', '', 'fresh memory that is not zero (a previously used heap block)', 'a message without cycle time gets an arbitrary one',
  dbc=D0 + ONE * 1 + 'BO_ 101 M2: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\n', sh='GLIBC_TUNABLES=glibc.malloc.perturb=90:glibc.malloc.tcache_count=0 "$BIN" -dbc in.dbc -out o2 -drvname drv -rw > log 2>&1\ndiff -r out o2 > /dev/null\n')
sd('c28-noconfig-include', 'C28', 'src/codegen/config-generator.cpp', 'wr.Append("#include \\"dbccodeconf.h\\"");', 'if (!gsett.no_inc) wr.Append("#include \\"dbccodeconf.h\\"");', 'the option -noinc', 'the configuration header loses the include of the common configuration',
  dbc=D0 + ONE, sh='"$BIN" -dbc in.dbc -out o2 -drvname drv -rw -noinc > log 2>&1\ncmp -s out/conf/drv-config.h o2/conf/drv-config.h\n')
sd('c29-tab-end', 'C29', F, "  if (passed != 0)\n", "  if (passed == 1)\n", 'a line with two blanks behind it (or a blank and a carriage return)', 'the last line of a definition is not recognised, so the definition is lost',
  dbc=D0 + ONE + 'CM_ BO_ 100 "text";  \nVAL_ 100 A 1 "On" ;  \n', sh='grep -q "// text" out/lib/drv.h && grep -q "A_M1_On" out/lib/drv.h\n')
sd('c29-blank-ends', 'C29', [(SC, '    FindVersion(sline);\n', '    FindVersion(sline);\n\n    if (sline.size() < 2 && pMsg != nullptr && pMsg->frameNotEmpty)\n    {\n      AddMessage(pMsg);\n      pMsg = nullptr;\n    }\n')], None, None, 'a blank line between the signals of a message', 'the signals behind it are lost',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\n SG_ B : 8|8@1+ (1,0) [0|0] "" N2\n\n', sh='grep -q "uint8_t B;" out/lib/drv.h\n')
sd('c30-extern-helper', 'C30', G, '"static bitext_t %s(ubitext_t val, uint8_t bits)\\n"', '"bitext_t %s(ubitext_t val, uint8_t bits)\\n"', 'two drivers linked into one program', 'the program does not link',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|7@1- (1,0) [0|0] "" N2\n\n', sh=G2 % ('in.dbc', 'out', 'two', '') + 'echo "int main(void) { return 0; }" > m.c\ngcc -w -Iout/lib -Iout/conf -Iout/inc -o t m.c out/lib/drv.c out/lib/two.c\n')
sd('c30-mono-name', 'C30', [(M, 'wr.Append("void _FMon_MONO_%s(FrameMonitor_t* _mon, uint32_t msgid);", aset.gen.drvname.c_str());', 'wr.Append("void _FMon_MONO_%.3s(FrameMonitor_t* _mon, uint32_t msgid);", aset.gen.drvname.c_str());'), (M, 'wr.Append("#define FMon_%s_%s(x, y) _FMon_MONO_%s((x), (y))", msg->Name.c_str(),', 'wr.Append("#define FMon_%s_%s(x, y) _FMon_MONO_%.3s((x), (y))", msg->Name.c_str(),'), (M, 'wr.Append("void _FMon_MONO_%s(FrameMonitor_t* _mon, uint32_t msgid)", aset.gen.drvname.c_str());', 'wr.Append("void _FMon_MONO_%.3s(FrameMonitor_t* _mon, uint32_t msgid)", aset.gen.drvname.c_str());')], None, None, 'two drivers whose names start with the same three letters, both with mono monitors', 'the program does not link',
  dbc=D0 + ONE, sh=G2 % ('in.dbc', 'out', 'drv2', '') + 'echo "int main(void) { return 0; }" > m.c\nO="-DDRV_USE_DIAG_MONITORS -DDRV_USE_MONO_FMON -DDRV2_USE_DIAG_MONITORS -DDRV2_USE_MONO_FMON"\ngcc -w $O -Iout/lib -Iout/conf -Iout/inc -o t m.c out/lib/drv.c out/lib/drv2.c out/usr/drv-fmon.c out/usr/drv2-fmon.c\n')
sd('c31-one-bit-sign', 'C31', G, 'pad += (sig.Signed) ? " [-]" : "    ";', 'pad += (sig.Signed && sig.TypeRo != SigType::i64) ? " [-]" : "    ";', 'a signed signal of more than 32 bits', 'the header does not tell that the signal is signed',
  dbc=D0 + 'BO_ 100 M1: 8 N1\n SG_ A : 0|40@1- (1,0) [0|0] "" N2\n\n', sh='grep "int64_t A;" out/lib/drv.h | grep -q "\\[-\\]"\n')
sd('c31-unit-offset', 'C31', G, 'if (sig.Unit.size() > 0)', 'if (sig.Unit.size() > 0 && !(sig.IsDoubleSig && sig.Factor == 1))', 'a floating-point signal with factor one and a unit', 'the unit is not told',
  dbc=D0 + 'BO_ 100 M1: 8 N1\n SG_ A : 0|8@1- (1.0,0.5) [0|0] "km" N2\n\n', sh='grep "A_ro;" out/lib/drv.h | grep -q "km"\n')
sd('c31-mux', 'C31', LP, 'if (halfs[2] == "M")', 'if (halfs[2][0] == \'M\' || halfs[2] == "m0")', 'a multiplexed signal of group 0', 'the header calls it the master signal',
  dbc=D0 + 'BO_ 100 M1: 8 N1\n SG_ A M : 0|8@1- (1,0) [0|0] "" N2\n SG_ B m0 : 8|8@1- (1,0) [0|0] "" N2\n\n', sh='[ $(grep -c "MULTIPLEX master" out/lib/drv.h) = 2 ]\n')
sd('c02-small-offset', 'C02', [(LP, 'if (((std::fabs(sig->Factor) < MIN_FAC_OFF) && (sig->Factor != 0.0)) ||', 'if (((std::fabs(sig->Factor) < MIN_FAC_OFF * 1000.0) && (sig->Factor != 0.0)) ||')], None, None, 'a factor below 0.000001', 'the signal is treated as a plain integer',
  dbc=D0 + 'BO_ 100 M1: 8 N1\n SG_ A : 0|8@1- (0.0000005,0) [0|0] "" N2\n\n', sh='grep -q " A_ro;" out/lib/drv.h\n')
sd('c20-no-sender', 'C20', U, 'if (!m->frameNotEmpty)', 'if (!m->frameNotEmpty || m->TranS.empty())', 'a message without transmitter', 'the utilities do not know the message',
  dbc=D0 + 'BO_ 100 M1: 8 \n SG_ A : 0|8@1- (1,0) [0|0] "" N2\n\nBO_ 101 M2: 8 N1\n SG_ A : 0|8@1- (1,0) [0|0] "" N2\n\n', sh='grep -q "M1_t M1" out/butl/drv-binutil.h\n')
sd('c06-dlc-narrow', 'C06', G, 'fwriter.Append("#define %s_DLC (%uU)", m.Name.c_str(), m.DLC);', 'fwriter.Append("#define %s_DLC (%uU)", m.Name.c_str(), (m.DLC == 64U && m.IsExt) ? 8U : m.DLC);', 'an extended message of 64 bytes', 'a wrong length is published',
  dbc=D0 + 'BO_ 2147483748 M1: 64 N1\n SG_ A : 0|8@1- (1,0) [0|0] "" N2\n\n', sh='grep -q "M1_DLC (64U)" out/lib/drv.h\n')
sd('c20-first-receiver', 'C20', SC, 'for (size_t j = 0; j < message->Signals[i].RecS.size(); j++)', 'for (size_t j = 0; j < message->Signals[i].RecS.size() && (j == 0 || message->RecS.size() < 3); j++)', 'a message with four receivers in one list', 'the last of them do not get the message',
  dbc='BU_: N1 N2 N3 N4 N5\n\nBO_ 100 M1: 8 N1\n SG_ A : 0|8@1- (1,0) [0|0] "" N2,N3,N4,N5\n\n', opts='-nodeutils', sh='[ -e out/butl/n5_drv-binutil.h ]\n')

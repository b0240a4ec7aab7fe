SEEDS = {}
D0 = 'VERSION "1.2"\n\nBU_: N1 N2\n\n'
SEEDS['c13-longer-frame'] = dict(property='C13', edits=[('src/codegen/c-main-generator.cpp', '(dlc_ < %s_DLC)', '(dlc_ != %s_DLC)')],
  needs='a frame received with more bytes than the message has', breaks='the length error is raised although the received length is not below the message length',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\n', cflags='-DDRV_USE_DIAG_MONITORS',
  c='#include "out/lib/drv.c"\n#include "out/usr/drv-fmon.c"\nint main(void) { M1_t m = {0}; uint8_t d[8] = {0}; Unpack_M1_drv(&m, d, 8); if (m.mon1.dlc_error) return 1; Unpack_M1_drv(&m, d, 3); return m.mon1.dlc_error != 1; }\n')
SEEDS['c02-exponent-offset'] = dict(property='C02', edits=[('src/parser/dbclineparser.cpp', "      || valpart[4].find_first_of('E') != std::string::npos\n", '')],
  needs='an offset written with upper-case exponent and no decimal point', breaks='the signal is classed as integer scaled',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 0|8@1+ (2,5E-1) [0|0] "" N2\n\n', sh='grep -q "sigfloat_t A_phys" out/lib/drv.h\n')
SEEDS['c09-tree-bound'] = dict(property='C09', edits=[('src/codegen/c-util-generator.cpp', '(_id >= 0x%XU) && (_id < 0x%XU)", list[l]->MsgID, list[(l + lowhalf)]->MsgID', '(_id >= 0x%XU) && (_id <= 0x%XU)", list[l]->MsgID, list[(l + lowhalf)]->MsgID - (span > 8 ? 0 : 1)')],
  needs='more than eight receivable messages and the identifier at the split', breaks='the message at the split of a large tree is not dispatched',
  dbc=D0 + ''.join('BO_ %d M%d: 1 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\n' % (10 + i, i) for i in range(10)),
  c='#include "out/lib/drv.c"\n#include "out/butl/drv-binutil.c"\nint main(void) { drv_rx_t r = {0}; uint8_t d[8] = {1}; for (int i = 10; i < 20; i++) if (drv_Receive(&r, d, i, 8) != i) return 1; return 0; }\n')
SEEDS['c06-raw-ide'] = dict(property='C06', edits=[('src/codegen/c-main-generator.cpp', 'fwriter.Append("  *_ide = (uint8_t) %s_IDE;", sgs->msg.Name.c_str());', 'fwriter.Append("  *_ide = (uint8_t) (%s_CANID > 0x7FFU);", sgs->msg.Name.c_str());')],
  needs='an extended message with an identifier that would fit eleven bits, packed with the raw-array variant', breaks='the standard/extended flag differs between the variants',
  dbc=D0 + 'BO_ 2147483748 M1: 4 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\n',
  c='#include "out/lib/drv.c"\nint main(void) { M1_t m = {0}; uint8_t d[8], l, e; Pack_M1_drv(&m, d, &l, &e); return e != 1; }\n')
SEEDS['c04-unaligned-wide'] = dict(property='C04', edits=[('src/codegen/c-sigprinter.cpp', 'static std::string msk[] = { "0", "0x01U", "0x03U", "0x07U", "0x0FU", "0x1FU", "0x3FU", "0x7FU", "0xFFU" };', 'static std::string msk[] = { "0", "0x01U", "0x03U", "0x07U", "0x0FU", "0x1FU", "0x3FU", "0x3FU", "0xFFU" };')],
  needs='a signal of which exactly seven bits lie in one byte', breaks='the highest of the seven bits is lost',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 1|9@1+ (1,0) [0|0] "" N2\n\n',
  c='#include "out/lib/drv.c"\nint main(void) { M1_t m = {0}; uint8_t d[4] = {0xFF, 0xFF}; Unpack_M1_drv(&m, d, 4); return m.A != 0x1FF; }\n')
SEEDS['c10-cycle-hex'] = dict(property='C10', edits=[('src/parser/dbcscanner.cpp', 'msg->Cycle = attr.Value;', 'msg->Cycle = static_cast<uint16_t>(attr.Value);')],
  needs='a cycle time above 65535 ms', breaks='the published cycle time is truncated to 16 bits',
  dbc=D0 + 'BO_ 100 M1: 4 N1\n SG_ A : 1|9@1+ (1,0) [0|0] "" N2\n\nBA_ "GenMsgCycleTime" BO_ 100 100000;\n',
  sh='grep -q "M1_CYC (100000U)" out/lib/drv.h\n')

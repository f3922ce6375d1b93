/*
 * Instruction signatures, written from the WebAssembly specification:
 * immediates, operand and result types.  Control, parametric, variable and
 * reference instructions with context dependent types are not listed.
 * '?' is the element type of the table.
 */
#pragma once
#include <stdint.h>

enum imm {
    IMM_MEMARG,
    IMM_MEM,
    IMM_I32,
    IMM_I64,
    IMM_F32,
    IMM_F64,
    IMM_NONE,
    IMM_FUNCREF,
    IMM_TAB,
    IMM_DATAMEM,
    IMM_DATA,
    IMM_MEM2,
    IMM_ELEMTAB,
    IMM_ELEM,
    IMM_TAB2,
    IMM_V128,
    IMM_SHUFFLE,
    IMM_LANE,
    IMM_MEMLANE,
    IMM_MEMARGA,
    IMM_ZERO,
};
struct ins {
    uint8_t prefix, op, imm;
    uint8_t x; /* log2 of the natural alignment, or number of lanes */
    const char *in, *out;
};
static const struct ins optab[] = {
    {0x00, 0x25, IMM_TAB, 0, "i", "?"},
    {0x00, 0x26, IMM_TAB, 0, "i?", ""},
    {0x00, 0x28, IMM_MEMARG, 2, "i", "i"},
    {0x00, 0x29, IMM_MEMARG, 3, "i", "I"},
    {0x00, 0x2a, IMM_MEMARG, 2, "i", "f"},
    {0x00, 0x2b, IMM_MEMARG, 3, "i", "F"},
    {0x00, 0x2c, IMM_MEMARG, 0, "i", "i"},
    {0x00, 0x2d, IMM_MEMARG, 0, "i", "i"},
    {0x00, 0x2e, IMM_MEMARG, 1, "i", "i"},
    {0x00, 0x2f, IMM_MEMARG, 1, "i", "i"},
    {0x00, 0x30, IMM_MEMARG, 0, "i", "I"},
    {0x00, 0x31, IMM_MEMARG, 0, "i", "I"},
    {0x00, 0x32, IMM_MEMARG, 1, "i", "I"},
    {0x00, 0x33, IMM_MEMARG, 1, "i", "I"},
    {0x00, 0x34, IMM_MEMARG, 2, "i", "I"},
    {0x00, 0x35, IMM_MEMARG, 2, "i", "I"},
    {0x00, 0x36, IMM_MEMARG, 2, "ii", ""},
    {0x00, 0x37, IMM_MEMARG, 3, "iI", ""},
    {0x00, 0x38, IMM_MEMARG, 2, "if", ""},
    {0x00, 0x39, IMM_MEMARG, 3, "iF", ""},
    {0x00, 0x3a, IMM_MEMARG, 0, "ii", ""},
    {0x00, 0x3b, IMM_MEMARG, 1, "ii", ""},
    {0x00, 0x3c, IMM_MEMARG, 0, "iI", ""},
    {0x00, 0x3d, IMM_MEMARG, 1, "iI", ""},
    {0x00, 0x3e, IMM_MEMARG, 2, "iI", ""},
    {0x00, 0x3f, IMM_MEM, 0, "", "i"},
    {0x00, 0x40, IMM_MEM, 0, "i", "i"},
    {0x00, 0x41, IMM_I32, 0, "", "i"},
    {0x00, 0x42, IMM_I64, 0, "", "I"},
    {0x00, 0x43, IMM_F32, 0, "", "f"},
    {0x00, 0x44, IMM_F64, 0, "", "F"},
    {0x00, 0x45, IMM_NONE, 0, "i", "i"},
    {0x00, 0x46, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x47, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x48, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x49, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x4a, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x4b, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x4c, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x4d, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x4e, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x4f, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x50, IMM_NONE, 0, "I", "i"},
    {0x00, 0x51, IMM_NONE, 0, "II", "i"},
    {0x00, 0x52, IMM_NONE, 0, "II", "i"},
    {0x00, 0x53, IMM_NONE, 0, "II", "i"},
    {0x00, 0x54, IMM_NONE, 0, "II", "i"},
    {0x00, 0x55, IMM_NONE, 0, "II", "i"},
    {0x00, 0x56, IMM_NONE, 0, "II", "i"},
    {0x00, 0x57, IMM_NONE, 0, "II", "i"},
    {0x00, 0x58, IMM_NONE, 0, "II", "i"},
    {0x00, 0x59, IMM_NONE, 0, "II", "i"},
    {0x00, 0x5a, IMM_NONE, 0, "II", "i"},
    {0x00, 0x5b, IMM_NONE, 0, "ff", "i"},
    {0x00, 0x5c, IMM_NONE, 0, "ff", "i"},
    {0x00, 0x5d, IMM_NONE, 0, "ff", "i"},
    {0x00, 0x5e, IMM_NONE, 0, "ff", "i"},
    {0x00, 0x5f, IMM_NONE, 0, "ff", "i"},
    {0x00, 0x60, IMM_NONE, 0, "ff", "i"},
    {0x00, 0x61, IMM_NONE, 0, "FF", "i"},
    {0x00, 0x62, IMM_NONE, 0, "FF", "i"},
    {0x00, 0x63, IMM_NONE, 0, "FF", "i"},
    {0x00, 0x64, IMM_NONE, 0, "FF", "i"},
    {0x00, 0x65, IMM_NONE, 0, "FF", "i"},
    {0x00, 0x66, IMM_NONE, 0, "FF", "i"},
    {0x00, 0x67, IMM_NONE, 0, "i", "i"},
    {0x00, 0x68, IMM_NONE, 0, "i", "i"},
    {0x00, 0x69, IMM_NONE, 0, "i", "i"},
    {0x00, 0x6a, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x6b, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x6c, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x6d, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x6e, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x6f, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x70, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x71, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x72, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x73, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x74, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x75, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x76, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x77, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x78, IMM_NONE, 0, "ii", "i"},
    {0x00, 0x79, IMM_NONE, 0, "I", "I"},
    {0x00, 0x7a, IMM_NONE, 0, "I", "I"},
    {0x00, 0x7b, IMM_NONE, 0, "I", "I"},
    {0x00, 0x7c, IMM_NONE, 0, "II", "I"},
    {0x00, 0x7d, IMM_NONE, 0, "II", "I"},
    {0x00, 0x7e, IMM_NONE, 0, "II", "I"},
    {0x00, 0x7f, IMM_NONE, 0, "II", "I"},
    {0x00, 0x80, IMM_NONE, 0, "II", "I"},
    {0x00, 0x81, IMM_NONE, 0, "II", "I"},
    {0x00, 0x82, IMM_NONE, 0, "II", "I"},
    {0x00, 0x83, IMM_NONE, 0, "II", "I"},
    {0x00, 0x84, IMM_NONE, 0, "II", "I"},
    {0x00, 0x85, IMM_NONE, 0, "II", "I"},
    {0x00, 0x86, IMM_NONE, 0, "II", "I"},
    {0x00, 0x87, IMM_NONE, 0, "II", "I"},
    {0x00, 0x88, IMM_NONE, 0, "II", "I"},
    {0x00, 0x89, IMM_NONE, 0, "II", "I"},
    {0x00, 0x8a, IMM_NONE, 0, "II", "I"},
    {0x00, 0x8b, IMM_NONE, 0, "f", "f"},
    {0x00, 0x8c, IMM_NONE, 0, "f", "f"},
    {0x00, 0x8d, IMM_NONE, 0, "f", "f"},
    {0x00, 0x8e, IMM_NONE, 0, "f", "f"},
    {0x00, 0x8f, IMM_NONE, 0, "f", "f"},
    {0x00, 0x90, IMM_NONE, 0, "f", "f"},
    {0x00, 0x91, IMM_NONE, 0, "f", "f"},
    {0x00, 0x92, IMM_NONE, 0, "ff", "f"},
    {0x00, 0x93, IMM_NONE, 0, "ff", "f"},
    {0x00, 0x94, IMM_NONE, 0, "ff", "f"},
    {0x00, 0x95, IMM_NONE, 0, "ff", "f"},
    {0x00, 0x96, IMM_NONE, 0, "ff", "f"},
    {0x00, 0x97, IMM_NONE, 0, "ff", "f"},
    {0x00, 0x98, IMM_NONE, 0, "ff", "f"},
    {0x00, 0x99, IMM_NONE, 0, "F", "F"},
    {0x00, 0x9a, IMM_NONE, 0, "F", "F"},
    {0x00, 0x9b, IMM_NONE, 0, "F", "F"},
    {0x00, 0x9c, IMM_NONE, 0, "F", "F"},
    {0x00, 0x9d, IMM_NONE, 0, "F", "F"},
    {0x00, 0x9e, IMM_NONE, 0, "F", "F"},
    {0x00, 0x9f, IMM_NONE, 0, "F", "F"},
    {0x00, 0xa0, IMM_NONE, 0, "FF", "F"},
    {0x00, 0xa1, IMM_NONE, 0, "FF", "F"},
    {0x00, 0xa2, IMM_NONE, 0, "FF", "F"},
    {0x00, 0xa3, IMM_NONE, 0, "FF", "F"},
    {0x00, 0xa4, IMM_NONE, 0, "FF", "F"},
    {0x00, 0xa5, IMM_NONE, 0, "FF", "F"},
    {0x00, 0xa6, IMM_NONE, 0, "FF", "F"},
    {0x00, 0xa7, IMM_NONE, 0, "I", "i"},
    {0x00, 0xa8, IMM_NONE, 0, "f", "i"},
    {0x00, 0xa9, IMM_NONE, 0, "f", "i"},
    {0x00, 0xaa, IMM_NONE, 0, "F", "i"},
    {0x00, 0xab, IMM_NONE, 0, "F", "i"},
    {0x00, 0xac, IMM_NONE, 0, "i", "I"},
    {0x00, 0xad, IMM_NONE, 0, "i", "I"},
    {0x00, 0xae, IMM_NONE, 0, "f", "I"},
    {0x00, 0xaf, IMM_NONE, 0, "f", "I"},
    {0x00, 0xb0, IMM_NONE, 0, "F", "I"},
    {0x00, 0xb1, IMM_NONE, 0, "F", "I"},
    {0x00, 0xb2, IMM_NONE, 0, "i", "f"},
    {0x00, 0xb3, IMM_NONE, 0, "i", "f"},
    {0x00, 0xb4, IMM_NONE, 0, "I", "f"},
    {0x00, 0xb5, IMM_NONE, 0, "I", "f"},
    {0x00, 0xb6, IMM_NONE, 0, "F", "f"},
    {0x00, 0xb7, IMM_NONE, 0, "i", "F"},
    {0x00, 0xb8, IMM_NONE, 0, "i", "F"},
    {0x00, 0xb9, IMM_NONE, 0, "I", "F"},
    {0x00, 0xba, IMM_NONE, 0, "I", "F"},
    {0x00, 0xbb, IMM_NONE, 0, "f", "F"},
    {0x00, 0xbc, IMM_NONE, 0, "f", "i"},
    {0x00, 0xbd, IMM_NONE, 0, "F", "I"},
    {0x00, 0xbe, IMM_NONE, 0, "i", "f"},
    {0x00, 0xbf, IMM_NONE, 0, "I", "F"},
    {0x00, 0xc0, IMM_NONE, 0, "i", "i"},
    {0x00, 0xc1, IMM_NONE, 0, "i", "i"},
    {0x00, 0xc2, IMM_NONE, 0, "I", "I"},
    {0x00, 0xc3, IMM_NONE, 0, "I", "I"},
    {0x00, 0xc4, IMM_NONE, 0, "I", "I"},
    {0x00, 0xd2, IMM_FUNCREF, 0, "", "r"},
    {0xfc, 0x00, IMM_NONE, 0, "f", "i"},
    {0xfc, 0x01, IMM_NONE, 0, "f", "i"},
    {0xfc, 0x02, IMM_NONE, 0, "F", "i"},
    {0xfc, 0x03, IMM_NONE, 0, "F", "i"},
    {0xfc, 0x04, IMM_NONE, 0, "f", "I"},
    {0xfc, 0x05, IMM_NONE, 0, "f", "I"},
    {0xfc, 0x06, IMM_NONE, 0, "F", "I"},
    {0xfc, 0x07, IMM_NONE, 0, "F", "I"},
    {0xfc, 0x08, IMM_DATAMEM, 0, "iii", ""},
    {0xfc, 0x09, IMM_DATA, 0, "", ""},
    {0xfc, 0x0a, IMM_MEM2, 0, "iii", ""},
    {0xfc, 0x0b, IMM_MEM, 0, "iii", ""},
    {0xfc, 0x0c, IMM_ELEMTAB, 0, "iii", ""},
    {0xfc, 0x0d, IMM_ELEM, 0, "", ""},
    {0xfc, 0x0e, IMM_TAB2, 0, "iii", ""},
    {0xfc, 0x0f, IMM_TAB, 1, "?i", "i"},
    {0xfc, 0x10, IMM_TAB, 2, "", "i"},
    {0xfc, 0x11, IMM_TAB, 3, "i?i", ""},
    {0xfd, 0x00, IMM_MEMARG, 4, "i", "v"},
    {0xfd, 0x01, IMM_MEMARG, 3, "i", "v"},
    {0xfd, 0x02, IMM_MEMARG, 3, "i", "v"},
    {0xfd, 0x03, IMM_MEMARG, 3, "i", "v"},
    {0xfd, 0x04, IMM_MEMARG, 3, "i", "v"},
    {0xfd, 0x05, IMM_MEMARG, 3, "i", "v"},
    {0xfd, 0x06, IMM_MEMARG, 3, "i", "v"},
    {0xfd, 0x07, IMM_MEMARG, 0, "i", "v"},
    {0xfd, 0x08, IMM_MEMARG, 1, "i", "v"},
    {0xfd, 0x09, IMM_MEMARG, 2, "i", "v"},
    {0xfd, 0x0a, IMM_MEMARG, 3, "i", "v"},
    {0xfd, 0x0b, IMM_MEMARG, 4, "iv", ""},
    {0xfd, 0x0c, IMM_V128, 0, "", "v"},
    {0xfd, 0x0d, IMM_SHUFFLE, 32, "vv", "v"},
    {0xfd, 0x0e, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x0f, IMM_NONE, 0, "i", "v"},
    {0xfd, 0x10, IMM_NONE, 0, "i", "v"},
    {0xfd, 0x11, IMM_NONE, 0, "i", "v"},
    {0xfd, 0x12, IMM_NONE, 0, "I", "v"},
    {0xfd, 0x13, IMM_NONE, 0, "f", "v"},
    {0xfd, 0x14, IMM_NONE, 0, "F", "v"},
    {0xfd, 0x15, IMM_LANE, 16, "v", "i"},
    {0xfd, 0x16, IMM_LANE, 16, "v", "i"},
    {0xfd, 0x17, IMM_LANE, 16, "vi", "v"},
    {0xfd, 0x18, IMM_LANE, 8, "v", "i"},
    {0xfd, 0x19, IMM_LANE, 8, "v", "i"},
    {0xfd, 0x1a, IMM_LANE, 8, "vi", "v"},
    {0xfd, 0x1b, IMM_LANE, 4, "v", "i"},
    {0xfd, 0x1c, IMM_LANE, 4, "vi", "v"},
    {0xfd, 0x1d, IMM_LANE, 2, "v", "I"},
    {0xfd, 0x1e, IMM_LANE, 2, "vI", "v"},
    {0xfd, 0x1f, IMM_LANE, 4, "v", "f"},
    {0xfd, 0x20, IMM_LANE, 4, "vf", "v"},
    {0xfd, 0x21, IMM_LANE, 2, "v", "F"},
    {0xfd, 0x22, IMM_LANE, 2, "vF", "v"},
    {0xfd, 0x23, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x24, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x25, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x26, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x27, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x28, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x29, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x2a, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x2b, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x2c, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x2d, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x2e, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x2f, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x30, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x31, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x32, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x33, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x34, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x35, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x36, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x37, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x38, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x39, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x3a, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x3b, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x3c, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x3d, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x3e, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x3f, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x40, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x41, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x42, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x43, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x44, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x45, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x46, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x47, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x48, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x49, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x4a, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x4b, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x4c, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x4d, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x4e, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x4f, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x50, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x51, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x52, IMM_NONE, 0, "vvv", "v"},
    {0xfd, 0x53, IMM_NONE, 0, "v", "i"},
    {0xfd, 0x54, IMM_MEMLANE, 0, "iv", "v"},
    {0xfd, 0x55, IMM_MEMLANE, 1, "iv", "v"},
    {0xfd, 0x56, IMM_MEMLANE, 2, "iv", "v"},
    {0xfd, 0x57, IMM_MEMLANE, 3, "iv", "v"},
    {0xfd, 0x58, IMM_MEMLANE, 0, "iv", ""},
    {0xfd, 0x59, IMM_MEMLANE, 1, "iv", ""},
    {0xfd, 0x5a, IMM_MEMLANE, 2, "iv", ""},
    {0xfd, 0x5b, IMM_MEMLANE, 3, "iv", ""},
    {0xfd, 0x5c, IMM_MEMARG, 2, "i", "v"},
    {0xfd, 0x5d, IMM_MEMARG, 3, "i", "v"},
    {0xfd, 0x5e, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x5f, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x60, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x61, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x62, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x63, IMM_NONE, 0, "v", "i"},
    {0xfd, 0x64, IMM_NONE, 0, "v", "i"},
    {0xfd, 0x65, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x66, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x67, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x68, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x69, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x6a, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x6b, IMM_NONE, 0, "vi", "v"},
    {0xfd, 0x6c, IMM_NONE, 0, "vi", "v"},
    {0xfd, 0x6d, IMM_NONE, 0, "vi", "v"},
    {0xfd, 0x6e, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x6f, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x70, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x71, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x72, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x73, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x74, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x75, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x76, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x77, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x78, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x79, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x7a, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x7b, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x7c, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x7d, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x7e, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x7f, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x80, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x81, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x82, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x83, IMM_NONE, 0, "v", "i"},
    {0xfd, 0x84, IMM_NONE, 0, "v", "i"},
    {0xfd, 0x85, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x86, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x87, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x88, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x89, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x8a, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x8b, IMM_NONE, 0, "vi", "v"},
    {0xfd, 0x8c, IMM_NONE, 0, "vi", "v"},
    {0xfd, 0x8d, IMM_NONE, 0, "vi", "v"},
    {0xfd, 0x8e, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x8f, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x90, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x91, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x92, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x93, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x94, IMM_NONE, 0, "v", "v"},
    {0xfd, 0x95, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x96, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x97, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x98, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x99, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x9b, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x9c, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x9d, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x9e, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0x9f, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xa0, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xa1, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xa3, IMM_NONE, 0, "v", "i"},
    {0xfd, 0xa4, IMM_NONE, 0, "v", "i"},
    {0xfd, 0xa7, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xa8, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xa9, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xaa, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xab, IMM_NONE, 0, "vi", "v"},
    {0xfd, 0xac, IMM_NONE, 0, "vi", "v"},
    {0xfd, 0xad, IMM_NONE, 0, "vi", "v"},
    {0xfd, 0xae, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xb1, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xb5, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xb6, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xb7, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xb8, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xb9, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xba, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xbc, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xbd, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xbe, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xbf, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xc0, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xc1, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xc3, IMM_NONE, 0, "v", "i"},
    {0xfd, 0xc4, IMM_NONE, 0, "v", "i"},
    {0xfd, 0xc7, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xc8, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xc9, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xca, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xcb, IMM_NONE, 0, "vi", "v"},
    {0xfd, 0xcc, IMM_NONE, 0, "vi", "v"},
    {0xfd, 0xcd, IMM_NONE, 0, "vi", "v"},
    {0xfd, 0xce, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xd1, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xd5, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xd6, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xd7, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xd8, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xd9, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xda, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xdb, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xdc, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xdd, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xde, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xdf, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xe0, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xe1, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xe3, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xe4, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xe5, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xe6, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xe7, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xe8, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xe9, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xea, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xeb, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xec, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xed, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xef, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xf0, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xf1, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xf2, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xf3, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xf4, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xf5, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xf6, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xf7, IMM_NONE, 0, "vv", "v"},
    {0xfd, 0xf8, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xf9, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xfa, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xfb, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xfc, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xfd, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xfe, IMM_NONE, 0, "v", "v"},
    {0xfd, 0xff, IMM_NONE, 0, "v", "v"},
    {0xfe, 0x00, IMM_MEMARGA, 2, "ii", "i"},
    {0xfe, 0x01, IMM_MEMARGA, 2, "iiI", "i"},
    {0xfe, 0x02, IMM_MEMARGA, 3, "iII", "i"},
    {0xfe, 0x03, IMM_ZERO, 0, "", ""},
    {0xfe, 0x10, IMM_MEMARGA, 2, "i", "i"},
    {0xfe, 0x11, IMM_MEMARGA, 3, "i", "I"},
    {0xfe, 0x12, IMM_MEMARGA, 0, "i", "i"},
    {0xfe, 0x13, IMM_MEMARGA, 1, "i", "i"},
    {0xfe, 0x14, IMM_MEMARGA, 0, "i", "I"},
    {0xfe, 0x15, IMM_MEMARGA, 1, "i", "I"},
    {0xfe, 0x16, IMM_MEMARGA, 2, "i", "I"},
    {0xfe, 0x17, IMM_MEMARGA, 2, "ii", ""},
    {0xfe, 0x18, IMM_MEMARGA, 3, "iI", ""},
    {0xfe, 0x19, IMM_MEMARGA, 0, "ii", ""},
    {0xfe, 0x1a, IMM_MEMARGA, 1, "ii", ""},
    {0xfe, 0x1b, IMM_MEMARGA, 0, "iI", ""},
    {0xfe, 0x1c, IMM_MEMARGA, 1, "iI", ""},
    {0xfe, 0x1d, IMM_MEMARGA, 2, "iI", ""},
    {0xfe, 0x1e, IMM_MEMARGA, 2, "ii", "i"},
    {0xfe, 0x1f, IMM_MEMARGA, 3, "iI", "I"},
    {0xfe, 0x20, IMM_MEMARGA, 0, "ii", "i"},
    {0xfe, 0x21, IMM_MEMARGA, 1, "ii", "i"},
    {0xfe, 0x22, IMM_MEMARGA, 0, "iI", "I"},
    {0xfe, 0x23, IMM_MEMARGA, 1, "iI", "I"},
    {0xfe, 0x24, IMM_MEMARGA, 2, "iI", "I"},
    {0xfe, 0x25, IMM_MEMARGA, 2, "ii", "i"},
    {0xfe, 0x26, IMM_MEMARGA, 3, "iI", "I"},
    {0xfe, 0x27, IMM_MEMARGA, 0, "ii", "i"},
    {0xfe, 0x28, IMM_MEMARGA, 1, "ii", "i"},
    {0xfe, 0x29, IMM_MEMARGA, 0, "iI", "I"},
    {0xfe, 0x2a, IMM_MEMARGA, 1, "iI", "I"},
    {0xfe, 0x2b, IMM_MEMARGA, 2, "iI", "I"},
    {0xfe, 0x2c, IMM_MEMARGA, 2, "ii", "i"},
    {0xfe, 0x2d, IMM_MEMARGA, 3, "iI", "I"},
    {0xfe, 0x2e, IMM_MEMARGA, 0, "ii", "i"},
    {0xfe, 0x2f, IMM_MEMARGA, 1, "ii", "i"},
    {0xfe, 0x30, IMM_MEMARGA, 0, "iI", "I"},
    {0xfe, 0x31, IMM_MEMARGA, 1, "iI", "I"},
    {0xfe, 0x32, IMM_MEMARGA, 2, "iI", "I"},
    {0xfe, 0x33, IMM_MEMARGA, 2, "ii", "i"},
    {0xfe, 0x34, IMM_MEMARGA, 3, "iI", "I"},
    {0xfe, 0x35, IMM_MEMARGA, 0, "ii", "i"},
    {0xfe, 0x36, IMM_MEMARGA, 1, "ii", "i"},
    {0xfe, 0x37, IMM_MEMARGA, 0, "iI", "I"},
    {0xfe, 0x38, IMM_MEMARGA, 1, "iI", "I"},
    {0xfe, 0x39, IMM_MEMARGA, 2, "iI", "I"},
    {0xfe, 0x3a, IMM_MEMARGA, 2, "ii", "i"},
    {0xfe, 0x3b, IMM_MEMARGA, 3, "iI", "I"},
    {0xfe, 0x3c, IMM_MEMARGA, 0, "ii", "i"},
    {0xfe, 0x3d, IMM_MEMARGA, 1, "ii", "i"},
    {0xfe, 0x3e, IMM_MEMARGA, 0, "iI", "I"},
    {0xfe, 0x3f, IMM_MEMARGA, 1, "iI", "I"},
    {0xfe, 0x40, IMM_MEMARGA, 2, "iI", "I"},
    {0xfe, 0x41, IMM_MEMARGA, 2, "ii", "i"},
    {0xfe, 0x42, IMM_MEMARGA, 3, "iI", "I"},
    {0xfe, 0x43, IMM_MEMARGA, 0, "ii", "i"},
    {0xfe, 0x44, IMM_MEMARGA, 1, "ii", "i"},
    {0xfe, 0x45, IMM_MEMARGA, 0, "iI", "I"},
    {0xfe, 0x46, IMM_MEMARGA, 1, "iI", "I"},
    {0xfe, 0x47, IMM_MEMARGA, 2, "iI", "I"},
    {0xfe, 0x48, IMM_MEMARGA, 2, "iii", "i"},
    {0xfe, 0x49, IMM_MEMARGA, 3, "iII", "I"},
    {0xfe, 0x4a, IMM_MEMARGA, 0, "iii", "i"},
    {0xfe, 0x4b, IMM_MEMARGA, 1, "iii", "i"},
    {0xfe, 0x4c, IMM_MEMARGA, 0, "iII", "I"},
    {0xfe, 0x4d, IMM_MEMARGA, 1, "iII", "I"},
    {0xfe, 0x4e, IMM_MEMARGA, 2, "iII", "I"},
};
#define NOPTAB ((unsigned)(sizeof(optab) / sizeof(optab[0])))

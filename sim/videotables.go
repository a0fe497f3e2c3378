package sim

import "sort"

// Variable length code tables of ISO/IEC 13818-2 Annex B, for the encoder of the video model.

var vlcIncrement = map[int]string{
	1:  "1",
	2:  "011",
	3:  "010",
	4:  "0011",
	5:  "0010",
	6:  "00011",
	7:  "00010",
	8:  "0000111",
	9:  "0000110",
	10: "00001011",
	11: "00001010",
	12: "00001001",
	13: "00001000",
	14: "00000111",
	15: "00000110",
	16: "0000010111",
	17: "0000010110",
	18: "0000010101",
	19: "0000010100",
	20: "0000010011",
	21: "0000010010",
	22: "00000100011",
	23: "00000100010",
	24: "00000100001",
	25: "00000100000",
	26: "00000011111",
	27: "00000011110",
	28: "00000011101",
	29: "00000011100",
	30: "00000011011",
	31: "00000011010",
	32: "00000011001",
	33: "00000011000",
}

var vlcPattern = map[int]string{
	60: "111",
	4:  "1101",
	8:  "1100",
	16: "1011",
	32: "1010",
	12: "10011",
	48: "10010",
	20: "10001",
	40: "10000",
	28: "01111",
	44: "01110",
	52: "01101",
	56: "01100",
	1:  "01011",
	61: "01010",
	2:  "01001",
	62: "01000",
	24: "001111",
	36: "001110",
	3:  "001101",
	63: "001100",
	5:  "0010111",
	9:  "0010110",
	17: "0010101",
	33: "0010100",
	6:  "0010011",
	10: "0010010",
	18: "0010001",
	34: "0010000",
	7:  "00011111",
	11: "00011110",
	19: "00011101",
	35: "00011100",
	13: "00011011",
	49: "00011010",
	21: "00011001",
	41: "00011000",
	14: "00010111",
	50: "00010110",
	22: "00010101",
	42: "00010100",
	15: "00010011",
	51: "00010010",
	23: "00010001",
	43: "00010000",
	25: "00001111",
	37: "00001110",
	26: "00001101",
	38: "00001100",
	29: "00001011",
	45: "00001010",
	53: "00001001",
	57: "00001000",
	30: "00000111",
	46: "00000110",
	54: "00000101",
	58: "00000100",
	31: "000000111",
	47: "000000110",
	55: "000000101",
	59: "000000100",
	27: "000000011",
	39: "000000010",
	0:  "000000001",
}

var vlcMotion = map[int]string{
	-16: "00000011001",
	-15: "00000011011",
	-14: "00000011101",
	-13: "00000011111",
	-12: "00000100001",
	-11: "00000100011",
	-10: "0000010011",
	-9:  "0000010101",
	-8:  "0000010111",
	-7:  "00000111",
	-6:  "00001001",
	-5:  "00001011",
	-4:  "0000111",
	-3:  "00011",
	-2:  "0011",
	-1:  "011",
	0:   "1",
	1:   "010",
	2:   "0010",
	3:   "00010",
	4:   "0000110",
	5:   "00001010",
	6:   "00001000",
	7:   "00000110",
	8:   "0000010110",
	9:   "0000010100",
	10:  "0000010010",
	11:  "00000100010",
	12:  "00000100000",
	13:  "00000011110",
	14:  "00000011100",
	15:  "00000011010",
	16:  "00000011000",
}

var vlcDCLuma = map[int]string{
	0:  "100",
	1:  "00",
	2:  "01",
	3:  "101",
	4:  "110",
	5:  "1110",
	6:  "11110",
	7:  "111110",
	8:  "1111110",
	9:  "11111110",
	10: "111111110",
	11: "111111111",
}

var vlcDCChroma = map[int]string{
	0:  "00",
	1:  "01",
	2:  "10",
	3:  "110",
	4:  "1110",
	5:  "11110",
	6:  "111110",
	7:  "1111110",
	8:  "11111110",
	9:  "111111110",
	10: "1111111110",
	11: "1111111111",
}

var vlcTypeI = map[string]string{
	"I":  "1",
	"QI": "01",
}

var vlcTypeP = map[string]string{
	"FP":  "1",
	"P":   "01",
	"F":   "001",
	"I":   "00011",
	"QFP": "00010",
	"QP":  "00001",
	"QI":  "000001",
}

var vlcTypeB = map[string]string{
	"FB":   "10",
	"FBP":  "11",
	"B":    "010",
	"BP":   "011",
	"F":    "0010",
	"FP":   "0011",
	"I":    "00011",
	"QFBP": "00010",
	"QFP":  "000011",
	"QBP":  "000010",
	"QI":   "000001",
}

var vlcCoef0 = map[runLevel]string{
	{-1, 0}: "10",
	{0, 1}:  "11",
	{1, 1}:  "011",
	{0, 2}:  "0100",
	{2, 1}:  "0101",
	{0, 3}:  "00101",
	{3, 1}:  "00111",
	{4, 1}:  "00110",
	{1, 2}:  "000110",
	{5, 1}:  "000111",
	{6, 1}:  "000101",
	{7, 1}:  "000100",
	{0, 4}:  "0000110",
	{2, 2}:  "0000100",
	{8, 1}:  "0000111",
	{9, 1}:  "0000101",
	{-2, 0}: "000001",
	{0, 5}:  "00100110",
	{0, 6}:  "00100001",
	{1, 3}:  "00100101",
	{3, 2}:  "00100100",
	{10, 1}: "00100111",
	{11, 1}: "00100011",
	{12, 1}: "00100010",
	{13, 1}: "00100000",
	{0, 7}:  "0000001010",
	{1, 4}:  "0000001100",
	{2, 3}:  "0000001011",
	{4, 2}:  "0000001111",
	{5, 2}:  "0000001001",
	{14, 1}: "0000001110",
	{15, 1}: "0000001101",
	{16, 1}: "0000001000",
	{0, 8}:  "000000011101",
	{0, 9}:  "000000011000",
	{0, 10}: "000000010011",
	{0, 11}: "000000010000",
	{1, 5}:  "000000011011",
	{2, 4}:  "000000010100",
	{3, 3}:  "000000011100",
	{4, 3}:  "000000010010",
	{6, 2}:  "000000011110",
	{7, 2}:  "000000010101",
	{8, 2}:  "000000010001",
	{17, 1}: "000000011111",
	{18, 1}: "000000011010",
	{19, 1}: "000000011001",
	{20, 1}: "000000010111",
	{21, 1}: "000000010110",
	{0, 12}: "0000000011010",
	{0, 13}: "0000000011001",
	{0, 14}: "0000000011000",
	{0, 15}: "0000000010111",
	{1, 6}:  "0000000010110",
	{1, 7}:  "0000000010101",
	{2, 5}:  "0000000010100",
	{3, 4}:  "0000000010011",
	{5, 3}:  "0000000010010",
	{9, 2}:  "0000000010001",
	{10, 2}: "0000000010000",
	{22, 1}: "0000000011111",
	{23, 1}: "0000000011110",
	{24, 1}: "0000000011101",
	{25, 1}: "0000000011100",
	{26, 1}: "0000000011011",
	{0, 16}: "00000000011111",
	{0, 17}: "00000000011110",
	{0, 18}: "00000000011101",
	{0, 19}: "00000000011100",
	{0, 20}: "00000000011011",
	{0, 21}: "00000000011010",
	{0, 22}: "00000000011001",
	{0, 23}: "00000000011000",
	{0, 24}: "00000000010111",
	{0, 25}: "00000000010110",
	{0, 26}: "00000000010101",
	{0, 27}: "00000000010100",
	{0, 28}: "00000000010011",
	{0, 29}: "00000000010010",
	{0, 30}: "00000000010001",
	{0, 31}: "00000000010000",
	{0, 32}: "000000000011000",
	{0, 33}: "000000000010111",
	{0, 34}: "000000000010110",
	{0, 35}: "000000000010101",
	{0, 36}: "000000000010100",
	{0, 37}: "000000000010011",
	{0, 38}: "000000000010010",
	{0, 39}: "000000000010001",
	{0, 40}: "000000000010000",
	{1, 8}:  "000000000011111",
	{1, 9}:  "000000000011110",
	{1, 10}: "000000000011101",
	{1, 11}: "000000000011100",
	{1, 12}: "000000000011011",
	{1, 13}: "000000000011010",
	{1, 14}: "000000000011001",
	{1, 15}: "0000000000010011",
	{1, 16}: "0000000000010010",
	{1, 17}: "0000000000010001",
	{1, 18}: "0000000000010000",
	{6, 3}:  "0000000000010100",
	{11, 2}: "0000000000011010",
	{12, 2}: "0000000000011001",
	{13, 2}: "0000000000011000",
	{14, 2}: "0000000000010111",
	{15, 2}: "0000000000010110",
	{16, 2}: "0000000000010101",
	{27, 1}: "0000000000011111",
	{28, 1}: "0000000000011110",
	{29, 1}: "0000000000011101",
	{30, 1}: "0000000000011100",
	{31, 1}: "0000000000011011",
}

var vlcCoef1 = map[runLevel]string{
	{-1, 0}: "0110",
	{0, 1}:  "10",
	{1, 1}:  "010",
	{0, 2}:  "110",
	{2, 1}:  "00101",
	{0, 3}:  "0111",
	{3, 1}:  "00111",
	{4, 1}:  "000110",
	{1, 2}:  "00110",
	{5, 1}:  "000111",
	{6, 1}:  "0000110",
	{7, 1}:  "0000100",
	{0, 4}:  "11100",
	{2, 2}:  "0000111",
	{8, 1}:  "0000101",
	{9, 1}:  "1111000",
	{-2, 0}: "000001",
	{0, 5}:  "11101",
	{0, 6}:  "000101",
	{1, 3}:  "1111001",
	{3, 2}:  "00100110",
	{10, 1}: "1111010",
	{11, 1}: "00100001",
	{12, 1}: "00100101",
	{13, 1}: "00100100",
	{0, 7}:  "000100",
	{1, 4}:  "00100111",
	{2, 3}:  "11111100",
	{4, 2}:  "11111101",
	{5, 2}:  "000000100",
	{14, 1}: "000000101",
	{15, 1}: "000000111",
	{16, 1}: "0000001101",
	{0, 8}:  "1111011",
	{0, 9}:  "1111100",
	{0, 10}: "00100011",
	{0, 11}: "00100010",
	{1, 5}:  "00100000",
	{2, 4}:  "0000001100",
	{3, 3}:  "000000011100",
	{4, 3}:  "000000010010",
	{6, 2}:  "000000011110",
	{7, 2}:  "000000010101",
	{8, 2}:  "000000010001",
	{17, 1}: "000000011111",
	{18, 1}: "000000011010",
	{19, 1}: "000000011001",
	{20, 1}: "000000010111",
	{21, 1}: "000000010110",
	{0, 12}: "11111010",
	{0, 13}: "11111011",
	{0, 14}: "11111110",
	{0, 15}: "11111111",
	{1, 6}:  "0000000010110",
	{1, 7}:  "0000000010101",
	{2, 5}:  "0000000010100",
	{3, 4}:  "0000000010011",
	{5, 3}:  "0000000010010",
	{9, 2}:  "0000000010001",
	{10, 2}: "0000000010000",
	{22, 1}: "0000000011111",
	{23, 1}: "0000000011110",
	{24, 1}: "0000000011101",
	{25, 1}: "0000000011100",
	{26, 1}: "0000000011011",
	{0, 16}: "00000000011111",
	{0, 17}: "00000000011110",
	{0, 18}: "00000000011101",
	{0, 19}: "00000000011100",
	{0, 20}: "00000000011011",
	{0, 21}: "00000000011010",
	{0, 22}: "00000000011001",
	{0, 23}: "00000000011000",
	{0, 24}: "00000000010111",
	{0, 25}: "00000000010110",
	{0, 26}: "00000000010101",
	{0, 27}: "00000000010100",
	{0, 28}: "00000000010011",
	{0, 29}: "00000000010010",
	{0, 30}: "00000000010001",
	{0, 31}: "00000000010000",
	{0, 32}: "000000000011000",
	{0, 33}: "000000000010111",
	{0, 34}: "000000000010110",
	{0, 35}: "000000000010101",
	{0, 36}: "000000000010100",
	{0, 37}: "000000000010011",
	{0, 38}: "000000000010010",
	{0, 39}: "000000000010001",
	{0, 40}: "000000000010000",
	{1, 8}:  "000000000011111",
	{1, 9}:  "000000000011110",
	{1, 10}: "000000000011101",
	{1, 11}: "000000000011100",
	{1, 12}: "000000000011011",
	{1, 13}: "000000000011010",
	{1, 14}: "000000000011001",
	{1, 15}: "0000000000010011",
	{1, 16}: "0000000000010010",
	{1, 17}: "0000000000010001",
	{1, 18}: "0000000000010000",
	{6, 3}:  "0000000000010100",
	{11, 2}: "0000000000011010",
	{12, 2}: "0000000000011001",
	{13, 2}: "0000000000011000",
	{14, 2}: "0000000000010111",
	{15, 2}: "0000000000010110",
	{16, 2}: "0000000000010101",
	{27, 1}: "0000000000011111",
	{28, 1}: "0000000000011110",
	{29, 1}: "0000000000011101",
	{30, 1}: "0000000000011100",
	{31, 1}: "0000000000011011",
}

// vlcEntries0 and vlcEntries1 list the runs and levels that have codes of their own.
var vlcEntries0, vlcEntries1 = vlcEntries(vlcCoef0), vlcEntries(vlcCoef1)

func vlcEntries(table map[runLevel]string) (out []runLevel) {
	for rl := range table {
		if rl.level > 0 {
			out = append(out, rl)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		return a.run < b.run || a.run == b.run && a.level < b.level
	})
	return
}

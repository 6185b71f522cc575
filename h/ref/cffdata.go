package ref

import "strings"

// CFFStdStrings are the 391 standard strings of Adobe TN 5176, Appendix A.
var CFFStdStrings = strings.Fields(`.notdef space exclam quotedbl numbersign dollar percent ampersand quoteright parenleft
parenright asterisk plus comma hyphen period slash zero one two three four five six seven eight nine colon semicolon
less equal greater question at A B C D E F G H I J K L M N O P Q R S T U V W X Y Z bracketleft backslash bracketright
asciicircum underscore quoteleft a b c d e f g h i j k l m n o p q r s t u v w x y z braceleft bar braceright
asciitilde exclamdown cent sterling fraction yen florin section currency quotesingle quotedblleft guillemotleft
guilsinglleft guilsinglright fi fl endash dagger daggerdbl periodcentered paragraph bullet quotesinglbase
quotedblbase quotedblright guillemotright ellipsis perthousand questiondown grave acute circumflex tilde macron
breve dotaccent dieresis ring cedilla hungarumlaut ogonek caron emdash AE ordfeminine Lslash Oslash OE
ordmasculine ae dotlessi lslash oslash oe germandbls onesuperior logicalnot mu trademark Eth onehalf plusminus
Thorn onequarter divide brokenbar degree thorn threequarters twosuperior registered minus eth multiply
threesuperior copyright Aacute Acircumflex Adieresis Agrave Aring Atilde Ccedilla Eacute Ecircumflex Edieresis
Egrave Iacute Icircumflex Idieresis Igrave Ntilde Oacute Ocircumflex Odieresis Ograve Otilde Scaron Uacute
Ucircumflex Udieresis Ugrave Yacute Ydieresis Zcaron aacute acircumflex adieresis agrave aring atilde ccedilla
eacute ecircumflex edieresis egrave iacute icircumflex idieresis igrave ntilde oacute ocircumflex odieresis
ograve otilde scaron uacute ucircumflex udieresis ugrave yacute ydieresis zcaron exclamsmall Hungarumlautsmall
dollaroldstyle dollarsuperior ampersandsmall Acutesmall parenleftsuperior parenrightsuperior twodotenleader
onedotenleader zerooldstyle oneoldstyle twooldstyle threeoldstyle fouroldstyle fiveoldstyle sixoldstyle
sevenoldstyle eightoldstyle nineoldstyle commasuperior threequartersemdash periodsuperior questionsmall
asuperior bsuperior centsuperior dsuperior esuperior isuperior lsuperior msuperior nsuperior osuperior
rsuperior ssuperior tsuperior ff ffi ffl parenleftinferior parenrightinferior Circumflexsmall hyphensuperior
Gravesmall Asmall Bsmall Csmall Dsmall Esmall Fsmall Gsmall Hsmall Ismall Jsmall Ksmall Lsmall Msmall Nsmall
Osmall Psmall Qsmall Rsmall Ssmall Tsmall Usmall Vsmall Wsmall Xsmall Ysmall Zsmall colonmonetary onefitted
rupiah Tildesmall exclamdownsmall centoldstyle Lslashsmall Scaronsmall Zcaronsmall Dieresissmall Brevesmall
Caronsmall Dotaccentsmall Macronsmall figuredash hypheninferior Ogoneksmall Ringsmall Cedillasmall
questiondownsmall oneeighth threeeighths fiveeighths seveneighths onethird twothirds zerosuperior foursuperior
fivesuperior sixsuperior sevensuperior eightsuperior ninesuperior zeroinferior oneinferior twoinferior
threeinferior fourinferior fiveinferior sixinferior seveninferior eightinferior nineinferior centinferior
dollarinferior periodinferior commainferior Agravesmall Aacutesmall Acircumflexsmall Atildesmall Adieresissmall
Aringsmall AEsmall Ccedillasmall Egravesmall Eacutesmall Ecircumflexsmall Edieresissmall Igravesmall Iacutesmall
Icircumflexsmall Idieresissmall Ethsmall Ntildesmall Ogravesmall Oacutesmall Ocircumflexsmall Otildesmall
Odieresissmall OEsmall Oslashsmall Ugravesmall Uacutesmall Ucircumflexsmall Udieresissmall Yacutesmall
Thornsmall Ydieresissmall 001.000 001.001 001.002 001.003 Black Bold Book Light Medium Regular Roman Semibold`)

func seq(parts ...int) []int { // pairs lo, hi
	var res []int
	for i := 0; i < len(parts); i += 2 {
		for x := parts[i]; x <= parts[i+1]; x++ {
			res = append(res, x)
		}
	}
	return res
}

// CFFPredefCharsets are the SIDs of the predefined charsets (Appendix C).
var CFFPredefCharsets = [3][]int{
	seq(0, 228),
	seq(0, 1, 229, 238, 13, 15, 99, 99, 239, 248, 27, 28, 249, 266, 109, 110, 267, 318, 158, 158, 155, 155, 163, 163,
		319, 326, 150, 150, 164, 164, 169, 169, 327, 378),
	seq(0, 1, 231, 232, 235, 238, 13, 15, 99, 99, 239, 248, 27, 28, 249, 251, 253, 266, 109, 110, 267, 270, 272, 272,
		300, 302, 305, 305, 314, 315, 158, 158, 155, 155, 163, 163, 320, 326, 150, 150, 164, 164, 169, 169, 327, 346),
}

// CFFPredefEncodings maps codes to SIDs for the Standard and Expert encodings
// (Appendix B).
var CFFPredefEncodings [2][256]int

func init() {
	put := func(k int, code int, sids []int) {
		for i, s := range sids {
			CFFPredefEncodings[k][code+i] = s
		}
	}
	put(0, 32, seq(1, 95))
	put(0, 161, seq(96, 110))
	put(0, 177, seq(111, 114))
	put(0, 182, seq(115, 122))
	put(0, 191, seq(123, 123))
	put(0, 193, seq(124, 131))
	put(0, 202, seq(132, 133))
	put(0, 205, seq(134, 137))
	put(0, 225, seq(138, 138))
	put(0, 227, seq(139, 139))
	put(0, 232, seq(140, 143))
	put(0, 241, seq(144, 144))
	put(0, 245, seq(145, 145))
	put(0, 248, seq(146, 149))

	put(1, 32, seq(1, 1, 229, 230))
	put(1, 36, seq(231, 238, 13, 15, 99, 99, 239, 248, 27, 28, 249, 252))
	put(1, 65, seq(253, 257))
	put(1, 73, seq(258, 258))
	put(1, 76, seq(259, 262))
	put(1, 82, seq(263, 265))
	put(1, 86, seq(266, 266, 109, 110, 267, 269))
	put(1, 93, seq(270, 303))
	put(1, 161, seq(304, 306))
	put(1, 166, seq(307, 311))
	put(1, 172, seq(312, 312))
	put(1, 175, seq(313, 313))
	put(1, 178, seq(314, 315))
	put(1, 182, seq(316, 318))
	put(1, 188, seq(158, 158, 155, 155, 163, 163, 319, 325))
	put(1, 200, seq(326, 326, 150, 150, 164, 164, 169, 169, 327, 378))
}

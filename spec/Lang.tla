------------------------------- MODULE Lang ---------------------------------
(***************************************************************************)
(* Language codes: ISO 639-1, ISO 639-2/T (terminology) and ISO 639-2/B    *)
(* (bibliographic) of the supported languages. The terminology codes are   *)
(* those of java.util.Locale (tables independent of the library); the      *)
(* standard has bibliographic codes of their own for nineteen of them.     *)
(***************************************************************************)
EXTENDS Bits

Terms == <<
  << "ab", "abk" >>, << "af", "afr" >>, << "ak", "aka" >>, << "am", "amh" >>,
  << "ar", "ara" >>, << "as", "asm" >>, << "ay", "aym" >>, << "az", "aze" >>,
  << "ba", "bak" >>, << "be", "bel" >>, << "bg", "bul" >>, << "bm", "bam" >>,
  << "bn", "ben" >>, << "bo", "bod" >>, << "bs", "bos" >>, << "ca", "cat" >>,
  << "co", "cos" >>, << "cs", "ces" >>, << "cv", "chv" >>, << "cy", "cym" >>,
  << "da", "dan" >>, << "de", "deu" >>, << "dv", "div" >>, << "dz", "dzo" >>,
  << "ee", "ewe" >>, << "el", "ell" >>, << "en", "eng" >>, << "es", "spa" >>,
  << "et", "est" >>, << "eu", "eus" >>, << "fa", "fas" >>, << "ff", "ful" >>,
  << "fi", "fin" >>, << "fj", "fij" >>, << "fr", "fra" >>, << "fy", "fry" >>,
  << "ga", "gle" >>, << "gd", "gla" >>, << "gl", "glg" >>, << "gn", "grn" >>,
  << "gu", "guj" >>, << "ha", "hau" >>, << "he", "heb" >>, << "hi", "hin" >>,
  << "hr", "hrv" >>, << "ht", "hat" >>, << "hu", "hun" >>, << "hy", "hye" >>,
  << "id", "ind" >>, << "ig", "ibo" >>, << "is", "isl" >>, << "it", "ita" >>,
  << "ja", "jpn" >>, << "ka", "kat" >>, << "kg", "kon" >>, << "ki", "kik" >>,
  << "kk", "kaz" >>, << "kl", "kal" >>, << "km", "khm" >>, << "kn", "kan" >>,
  << "ko", "kor" >>, << "kr", "kau" >>, << "ks", "kas" >>, << "ku", "kur" >>,
  << "ky", "kir" >>, << "lb", "ltz" >>, << "lg", "lug" >>, << "li", "lim" >>,
  << "ln", "lin" >>, << "lo", "lao" >>, << "lt", "lit" >>, << "lv", "lav" >>,
  << "mg", "mlg" >>, << "mh", "mah" >>, << "mk", "mkd" >>, << "ml", "mal" >>,
  << "mn", "mon" >>, << "mr", "mar" >>, << "ms", "msa" >>, << "mt", "mlt" >>,
  << "my", "mya" >>, << "na", "nau" >>, << "nd", "nde" >>, << "ne", "nep" >>,
  << "nl", "nld" >>, << "no", "nor" >>, << "nr", "nbl" >>, << "ny", "nya" >>,
  << "oc", "oci" >>, << "om", "orm" >>, << "or", "ori" >>, << "os", "oss" >>,
  << "pa", "pan" >>, << "pl", "pol" >>, << "ps", "pus" >>, << "pt", "por" >>,
  << "qu", "que" >>, << "rn", "run" >>, << "ro", "ron" >>, << "ru", "rus" >>,
  << "rw", "kin" >>, << "sa", "san" >>, << "sc", "srd" >>, << "sd", "snd" >>,
  << "sg", "sag" >>, << "si", "sin" >>, << "sk", "slk" >>, << "sl", "slv" >>,
  << "sm", "smo" >>, << "sn", "sna" >>, << "so", "som" >>, << "sq", "sqi" >>,
  << "sr", "srp" >>, << "ss", "ssw" >>, << "st", "sot" >>, << "su", "sun" >>,
  << "sv", "swe" >>, << "sw", "swa" >>, << "ta", "tam" >>, << "te", "tel" >>,
  << "tg", "tgk" >>, << "th", "tha" >>, << "ti", "tir" >>, << "tk", "tuk" >>,
  << "tl", "tgl" >>, << "tn", "tsn" >>, << "to", "ton" >>, << "tr", "tur" >>,
  << "ts", "tso" >>, << "tt", "tat" >>, << "tw", "twi" >>, << "ty", "tah" >>,
  << "ug", "uig" >>, << "uk", "ukr" >>, << "ur", "urd" >>, << "uz", "uzb" >>,
  << "ve", "ven" >>, << "vi", "vie" >>, << "wa", "wln" >>, << "wo", "wol" >>,
  << "xh", "xho" >>, << "yi", "yid" >>, << "yo", "yor" >>, << "za", "zha" >>,
  << "zh", "zho" >>, << "zu", "zul" >>
>>

Biblio == <<
  << "bo", "tib" >>, << "cs", "cze" >>, << "cy", "wel" >>, << "de", "ger" >>,
  << "el", "gre" >>, << "eu", "baq" >>, << "fa", "per" >>, << "fr", "fre" >>,
  << "hy", "arm" >>, << "is", "ice" >>, << "ka", "geo" >>, << "mk", "mac" >>,
  << "ms", "may" >>, << "my", "bur" >>, << "nl", "dut" >>, << "ro", "rum" >>,
  << "sk", "slo" >>, << "sq", "alb" >>, << "zh", "chi" >>
>>

Keys(tab) == { tab[i][1] : i \in 1 .. Len(tab) }
Vals(tab) == { tab[i][2] : i \in 1 .. Len(tab) }
Fun(tab) == [x \in Keys(tab) |-> (CHOOSE i \in 1 .. Len(tab) : tab[i][1] = x)]
TermOf == [x \in Keys(Terms) |-> Terms[Fun(Terms)[x]][2]]
OwnBiblio == [x \in Keys(Biblio) |-> Biblio[Fun(Biblio)[x]][2]]
BiblioOf == [x \in Keys(Terms) |-> IF x \in Keys(Biblio) THEN OwnBiblio[x] ELSE TermOf[x]]

\* Back: three letters to two
BackOf == [y \in Vals(Terms) \cup Vals(Biblio) |->
             CHOOSE x \in Keys(Terms) : TermOf[x] = y \/ BiblioOf[x] = y]

\* "" stands for no conversion
Convert(c) == IF c \in DOMAIN BiblioOf THEN BiblioOf[c]
              ELSE IF c \in DOMAIN BackOf THEN BackOf[c]
              ELSE ""
=============================================================================

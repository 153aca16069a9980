------------------------------ MODULE SelmahoData ------------------------------
(***************************************************************************)
(* The lexicon: which cmavo belong to which selmaho (official and          *)
(* experimental members), the conventional name of every selmaho, and the  *)
(* selmaho that have experimental members only.  Words are in their        *)
(* canonical spelling: apostrophes, no commas.                             *)
(***************************************************************************)
Lexicon == <<
  <<"A", {"a", "e", "ji", "o", "u"},
     {"e'u'a", "i'a'a"}>>,
  <<"Bai", {"ba'i", "bai", "bau", "be'i", "ca'i", "cau", "ci'e", "ci'o", "ci'u", "cu'u", "de'i",
       "di'o", "do'e", "du'i", "du'o", "fa'e", "fi'e", "ga'a", "gau", "ja'e", "ji'e", "ji'o",
       "ji'u", "ka'a", "ka'i", "kai", "ki'i", "ki'u", "koi", "ku'u", "la'u", "le'a", "li'e", "ma'e",
       "ma'i", "mau", "me'a", "me'e", "mu'i", "mu'u", "ni'i", "pa'a", "pa'u", "pi'o", "pu'a",
       "pu'e", "ra'a", "ra'i", "rai", "ri'a", "ri'i", "sau", "si'u", "ta'i", "tai", "ti'i", "ti'u",
       "tu'i", "va'o", "va'u", "zau", "zu'e"},
     {"be'ei", "da'ai'a", "de'i'a", "de'i'e", "de'i'i", "de'i'o", "de'i'u", "fi'ei", "gai'i",
       "ja'u", "ka'ai", "kai'ai", "ki'oi", "ko'au", "ku'ai", "li'i'e", "mu'ai", "mu'e'ei", "nai'i",
       "nu'ai", "pau'u", "po'a", "pu'ai", "te'a'a", "te'i", "ti'u'a", "ti'u'e", "ti'u'i", "xau"}>>,
  <<"Bahe", {"ba'e", "za'e", "ci'a"},
     {"pe'ei", "zai'e", "zei'e"}>>,
  <<"Be", {"be"},
     {}>>,
  <<"Bei", {"bei"},
     {}>>,
  <<"Beho", {"be'o"},
     {}>>,
  <<"Bihe", {"bi'e"},
     {}>>,
  <<"Bihi", {"bi'i", "bi'o", "mi'i"},
     {}>>,
  <<"Bo", {"bo"},
     {}>>,
  <<"Boi", {"boi"},
     {"boi'e'u"}>>,
  <<"Bu", {"bu"},
     {}>>,
  <<"By", {"by", "cy", "dy", "fy", "ga'e", "ge'o", "gy", "je'o", "jo'o", "jy", "ky", "lo'a", "ly",
       "my", "na'a", "ny", "py", "ru'o", "ry", "se'e", "sy", "to'a", "ty", "vy", "xy", "y'y", "zy"},
     {"bu'o'e", "e'y", "i'y", "iy", "iy'y", "o'y", "u'y", "uy", "jo'au'o", "ro'au'o"}>>,
  <<"Cai", {"cai", "cu'i", "pei", "ru'e", "sai"},
     {"cau'i", "dai'i", "na'oi", "ni'au", "pei'a", "dau'i", "mau'i", "me'ai"}>>,
  <<"Caha", {"ca'a", "ka'e", "nu'o", "pu'i"},
     {"bi'ai"}>>,
  <<"Cei", {"cei"},
     {}>>,
  <<"Cehe", {"ce'e"},
     {}>>,
  <<"Co", {"co"},
     {"co'ai'e", "co'au'e", "co'o'e"}>>,
  <<"Coi", {"be'e", "coi", "co'o", "fe'o", "fi'i", "je'e", "ju'i", "ke'o", "ki'e", "mi'e", "mu'o",
       "nu'e", "pe'u", "re'i", "ta'a", "vi'o"},
     {"a'oi", "bu'oi", "co'oi", "de'a'ai", "di'a'ai", "di'ai", "doi'oi", "fau'u", "fe'oi", "fi'i'e",
       "ke'o'a", "ke'o'o", "ke'o'u", "ku'au'i", "ku'o'e'a", "o'ai", "sau'ei", "sau'e'u", "sei'ai",
       "sei'u", "te'ei", "ve'ei", "xu'e", "zau'e", "ci'oi", "go'au", "goi'e", "jo'au", "ki'ai",
       "sa'ei", "tai'i"}>>,
  <<"Cu", {"cu"},
     {}>>,
  <<"Cuhe", {"cu'e", "nau"},
     {"ba'au", "pu'au"}>>,
  <<"Daho", {"da'o"},
     {"dai'o", "do'ai", "xei'a", "xei'i", "xei'u"}>>,
  <<"Doi", {"doi"},
     {"ve'ai", "da'ei", "da'oi"}>>,
  <<"Dohu", {"do'u"},
     {}>>,
  <<"Fa", {"fa", "fai", "fe", "fi", "fi'a", "fo", "fu"},
     {"fai'i", "fa'au'u", "zoi'u"}>>,
  <<"Faha", {"be'a", "vu'a", "du'a", "ne'u", "ru'u", "ri'u", "ti'a", "ga'u", "ca'u", "ni'a", "zu'a",
       "re'o", "te'e", "bu'u", "ne'a", "ne'i", "pa'o", "to'o", "fa'a", "ze'o", "zo'a", "zo'i"},
     {"bau'u", "gau'o", "du'oi", "zu'au"}>>,
  <<"Faho", {"fa'o"},
     {"fa'u'u'u'u'u'u'u'u", "to'au"}>>,
  <<"Fehe", {"fe'e"},
     {}>>,
  <<"Fehu", {"fe'u"},
     {}>>,
  <<"Fiho", {"fi'o"},
     {}>>,
  <<"Foi", {"foi"},
     {}>>,
  <<"Fuha", {"fu'a"},
     {}>>,
  <<"Fuhe", {"fu'e"},
     {"fu'ei"}>>,
  <<"Fuho", {"fu'o"},
     {}>>,
  <<"Ga", {"ga", "ge", "ge'i", "go", "gu"},
     {"ge'u'a", "gi'a'a"}>>,
  <<"Gaho", {"ga'o", "ke'i"},
     {"xai'u'oi", "xoi'u'oi", "ma'a'u'oi", "xau'u'oi", "xei'u'oi"}>>,
  <<"Gehu", {"ge'u"},
     {}>>,
  <<"Gi", {"gi"},
     {}>>,
  <<"Giha", {"gi'a", "gi'e", "gi'i", "gi'o", "gi'u"},
     {"gi'e'u'a", "gi'i'a'a"}>>,
  <<"Goi", {"goi", "po", "po'e", "po'u", "ne", "no'u", "pe"},
     {"voi'e"}>>,
  <<"Goha", {"go'a", "go'e", "go'i", "go'o", "go'u", "bu'a", "bu'e", "bu'i", "co'e", "du", "mo",
       "nei", "no'a"},
     {"gai'o", "gi'o'i", "go'ai", "ku'ai'i", "cei'i", "xe'u"}>>,
  <<"Guha", {"gu'a", "gu'e", "gu'i", "gu'o", "gu'u"},
     {"gu'e'u'a", "gu'i'a'a"}>>,
  <<"I", {"i"},
     {}>>,
  <<"Ja", {"ja", "je", "je'i", "jo", "ju"},
     {"je'u'a", "ji'a'a"}>>,
  <<"Jai", {"jai"},
     {"ja'ei", "jai'e", "jo'ai"}>>,
  <<"Joi", {"joi", "fa'u", "pi'u", "jo'e", "jo'u", "ju'e", "ku'a", "ce", "ce'o"},
     {"fa'u'ai", "xoi'u", "jo'ei", "jo'ei'i", "joi'au'a", "jo'oi", "bo'a'oi", "ce'au", "ce'oi"}>>,
  <<"Johi", {"jo'i"},
     {}>>,
  <<"Ke", {"ke"},
     {"va'au", "fei'u", "ke'oi", "pi'ai"}>>,
  <<"Kei", {"kei"},
     {}>>,
  <<"Kehe", {"ke'e"},
     {}>>,
  <<"Ki", {"ki"},
     {}>>,
  <<"Koha", {"da", "de", "di", "da'u", "de'e", "dei", "de'u", "di'e", "da'e", "di'u", "do'i", "ko",
       "ma'a", "mi", "mi'a", "do", "do'o", "mi'o", "vo'a", "vo'e", "vo'i", "vo'o", "vo'u", "fo'a",
       "fo'e", "fo'i", "fo'o", "fo'u", "ko'a", "ko'e", "ko'i", "ko'o", "ko'u", "ra", "ru", "ri",
       "ti", "tu", "ta", "ke'a", "ma", "zi'o", "zo'e", "zu'i", "ce'u"},
     {"kau'a", "kau'e", "kau'i", "da'au", "lau'e", "lau'u", "dei'ei", "ra'au", "da'ai", "do'o'o",
       "mi'ai", "mi'oi", "vau'a", "vau'e", "vau'o", "vau'u", "ri'au", "xai", "zoi'i", "tu'oi",
       "tu'oi'u", "ca'au", "di'au", "di'ei", "di'oi", "do'au", "do'ei", "mai'i", "nau'o", "nau'u",
       "zai'o", "sy'y", "zu'ai", "bo'i", "bo'o", "bo'u", "bo'a", "bo'e"}>>,
  <<"Ku", {"ku"},
     {}>>,
  <<"Kuhe", {"ku'e"},
     {}>>,
  <<"Kuho", {"ku'o"},
     {}>>,
  <<"La", {"la", "la'i", "lai"},
     {"lai'u", "la'ei"}>>,
  <<"Lau", {"lau", "tau", "zai", "ce'a"},
     {}>>,
  <<"Lahe", {"la'e", "tu'a", "vu'i", "lu'a", "lu'e", "lu'i", "lu'o"},
     {"tau'e", "lai'e", "la'e'au", "lu'au", "cei'u", "du'au", "moi'a", "zo'ei"}>>,
  <<"Le", {"le", "le'e", "le'i", "lei", "lo", "lo'e", "lo'i", "loi"},
     {"dau'u", "ji'ai", "kai'i", "le'ei", "lei'e", "lei'i", "lo'au", "loi'a", "loi'e", "loi'i",
       "lo'o'o", "ly'ei", "me'ei", "moi'oi", "mo'oi", "nei'i", "ri'oi", "ti'oi", "xai'i", "zo'ai",
       "zy'oi"}>>,
  <<"Lehu", {"le'u"},
     {}>>,
  <<"Li", {"li", "me'o"},
     {"li'ai", "na'au"}>>,
  <<"Lihu", {"li'u"},
     {}>>,
  <<"Loho", {"lo'o"},
     {}>>,
  <<"Lohu", {"lo'u"},
     {"la'ai"}>>,
  <<"Lu", {"lu"},
     {"la'au", "tu'ai"}>>,
  <<"Luhu", {"lu'u"},
     {}>>,
  <<"Mai", {"mai", "mo'o"},
     {"sai'ei", "ju'ai", "lai'a", "ba'ai"}>>,
  <<"Maho", {"ma'o"},
     {}>>,
  <<"Me", {"me"},
     {"du'ai", "me'au", "mei'u"}>>,
  <<"Mehu", {"me'u"},
     {}>>,
  <<"Moi", {"moi", "si'e", "va'e", "mei", "cu'o"},
     {"jei'o", "ka'oi", "lei'o", "cei'a", "cu'oi'e", "coi'e", "doi'e", "mei'i", "moi'e", "moi'o",
       "moi'u", "nei'o", "soi'e"}>>,
  <<"Mohe", {"mo'e"},
     {}>>,
  <<"Mohi", {"mo'i"},
     {}>>,
  <<"Na", {"na", "ja'a"},
     {"xa'au", "xu'o'e", "cau'a", "mai'a", "mai'e", "na'ai"}>>,
  <<"Nai", {"nai"},
     {"ja'ai"}>>,
  <<"Nahe", {"na'e", "to'e", "je'a", "no'e"},
     {"rai'a", "rei'e", "sai'e", "gu'y", "je'ai", "cai'e", "cau'e", "cau'o'e", "na'ei", "ni'u'u",
       "noi'e", "pai'e"}>>,
  <<"Nahu", {"na'u"},
     {}>>,
  <<"Nihe", {"ni'e"},
     {}>>,
  <<"Niho", {"ni'o", "no'i"},
     {}>>,
  <<"Noi", {"noi", "poi", "voi"},
     {"voi'i"}>>,
  <<"Nu", {"nu", "si'o", "jei", "ka", "li'i", "du'u", "ni", "su'u", "pu'u", "za'i", "mu'e", "zu'o"},
     {"poi'i", "te'oi", "ga'ei", "ka'ei", "kai'ei", "kai'u", "ka'oi'i", "bu'ai", "ni'ai", "xe'ei"}>>,
  <<"Nuha", {"nu'a"},
     {}>>,
  <<"Nuhi", {"nu'i"},
     {}>>,
  <<"Nuhu", {"nu'u"},
     {}>>,
  <<"Pa", {"bi", "ce'i", "ci", "ci'i", "da'a", "dau", "du'e", "fei", "fi'u", "gai", "jau", "ji'i",
       "ka'o", "ki'o", "ma'u", "me'i", "mo'a", "mu", "ni'u", "no", "no'o", "pa", "pai", "pi",
       "pi'e", "ra'e", "rau", "re", "rei", "ro", "so", "so'a", "so'e", "so'i", "so'o", "so'u",
       "su'e", "su'o", "te'o", "tu'o", "vai", "vo", "xa", "xo", "za'u", "ze", "1", "2", "3", "4",
       "5", "6", "7", "8", "9", "0"},
     {"bi'ei", "by'ai", "ci'i'e", "ci'i'o", "ci'i'oi", "dau'e", "dy'ei", "fai'e'au", "fai'u",
       "fai'u'a", "fu'a'ai", "fu'a'au", "fy'ai", "ga'au", "gau'i'o", "go'o'i'a", "ja'au", "ka'ei'a",
       "ka'o'ai", "ka'o'ei", "kai'o", "kau'o", "kei'ei", "kei'o", "koi'o", "ku'i'a", "lai'ai",
       "mai'e'e", "mei'a", "mu'i'ai", "mu'i'u", "na'a'u", "ni'e'ei", "ni'e'oi", "no'ai", "no'e'u",
       "ny'ei", "pa'au'o", "pei'i'a", "pi'au", "pu'e'u'o", "py'ai", "ro'oi", "ru'oi", "sai'i",
       "se'i'i", "sei'a", "sei'u'e", "si'ei", "si'i'ai", "so'au", "soi'ai", "soi'au", "su'ai",
       "su'au", "su'o'o", "su'oi", "sy'au", "tau'u", "va'ei'a", "vau'au'o", "vo'ei'a", "vu'ai",
       "xe'a", "xe'e", "xei", "xi'i'ei", "xo'au", "xo'e", "xy'au", "zau'u", "ze'au", "zy'ei",
       "vi'ei'e"}>>,
  <<"Pehe", {"pe'e"},
     {}>>,
  <<"Peho", {"pe'o"},
     {"kei'ai"}>>,
  <<"Pu", {"pu", "ba", "ca"},
     {"xa'ei"}>>,
  <<"Raho", {"ra'o"},
     {}>>,
  <<"Roi", {"roi", "re'u"},
     {"va'ei", "ba'oi", "de'ei", "mu'ei"}>>,
  <<"Sa", {"sa"},
     {}>>,
  <<"Se", {"se", "te", "ve", "xe"},
     {"re'au'e", "se'ai'e", "se'au'e", "se'o'e", "se'u'o", "to'ai", "tu'ei", "vo'ai", "xo'ai",
       "ko'ei", "lu'oi", "ze'ai'e", "ze'au'e", "so'o'o'oi", "su'ei"}>>,
  <<"Sei", {"sei", "ti'o"},
     {"sei'e", "le'au", "cei'e"}>>,
  <<"Sehu", {"se'u"},
     {}>>,
  <<"Si", {"si"},
     {"si'au'i", "ze'ei"}>>,
  <<"Soi", {"soi"},
     {}>>,
  <<"Su", {"su"},
     {}>>,
  <<"Tahe", {"ta'e", "ru'i", "di'i", "na'o"},
     {"dei'a", "ze'ai", "zei'a"}>>,
  <<"Tei", {"tei"},
     {}>>,
  <<"Tehu", {"te'u"},
     {}>>,
  <<"To", {"to", "to'i"},
     {}>>,
  <<"Toi", {"toi"},
     {}>>,
  <<"Tuhe", {"tu'e"},
     {}>>,
  <<"Tuhu", {"tu'u"},
     {}>>,
  <<"Ui", {"a'a", "a'e", "a'i", "ai", "a'o", "a'u", "au", "ba'a", "ba'u", "be'u", "bi'u", "bu'o",
       "ca'e", "da'i", "dai", "do'a", "e'a", "e'e", "e'i", "ei", "e'o", "e'u", "fu'i", "ga'i",
       "ge'e", "i'a", "ia", "i'e", "ie", "i'i", "ii", "i'o", "io", "i'u", "iu", "ja'o", "je'u",
       "ji'a", "jo'a", "ju'a", "ju'o", "ka'u", "kau", "ke'u", "ki'a", "ku'i", "la'a", "le'o",
       "li'a", "li'o", "mi'u", "mu'a", "na'i", "o'a", "o'e", "o'i", "oi", "o'o", "o'u", "pa'e",
       "pau", "pe'a", "pe'i", "po'o", "ra'u", "re'e", "ri'e", "ro'a", "ro'e", "ro'i", "ro'o",
       "ro'u", "ru'a", "sa'a", "sa'e", "sa'u", "se'a", "se'i", "se'o", "si'a", "su'a", "ta'o",
       "ta'u", "ti'e", "to'u", "u'a", "ua", "u'e", "ue", "u'i", "ui", "u'o", "uo", "u'u", "uu",
       "va'i", "vu'e", "xu", "za'a", "zo'o", "zu'u"},
     {"fai'a", "rau'o", "si'ai", "tai'a", "tei'i", "tei'o", "uau'o", "ue'e", "uei'e", "ui'a",
       "ui'o", "va'u'au", "fu'ei'a", "fu'ei'e", "fu'ei'i", "fi'ei'o", "fu'ei'u", "ii'au", "au'o",
       "a'u'u", "ca'e'ei", "ci'ai", "cu'ei", "cu'ei'a", "cu'ei'ai", "cu'ei'e", "cu'ei'ei",
       "cu'ei'i", "cu'ei'o", "cu'ei'oi", "cu'ei'u", "coi'o'e", "doi'au", "e'au", "ei'u", "mu'au'oi",
       "oi'a", "pau'ai", "pau'i", "zei'i", "su'a'a", "zi'ei", "u'ai", "uai", "uau", "ue'i", "ui'i",
       "uo'o", "uu'i", "ia'u", "ie'e", "ie'i", "a'au", "ai'i", "au'u", "ci'au'u'au'i", "e'ei",
       "ei'au", "ei'e", "ei'i", "mau'u", "mi'au", "ne'au", "oi'o", "oi'u", "ri'ai", "sei'i",
       "si'au", "jei'u", "ju'oi", "kai'a", "kai'e", "ki'au", "lai'i", "moi'i", "pei'e", "za'au",
       "vo'oi", "vei'i", "ta'ei", "te'i'o", "xa'i", "xu'a", "fu'au", "je'au", "so'ei", "sy'a",
       "xe'o", "roi'i", "pei'o", "ra'i'au", "xo'o", "jau'i", "ji'ei", "bo'oi", "dai'a", "noi'u",
       "zai'a", "ki'a'au'u'au'i", "ko'oi",
       "cu'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u"}>>,
  <<"Va", {"va", "vi", "vu"},
     {"xa'e"}>>,
  <<"Vau", {"vau"},
     {}>>,
  <<"Vei", {"vei"},
     {}>>,
  <<"Veha", {"ve'a", "ve'e", "ve'i", "ve'u"},
     {}>>,
  <<"Veho", {"ve'o"},
     {"ve'oi"}>>,
  <<"Viha", {"vi'a", "vi'u", "vi'e", "vi'i"},
     {}>>,
  <<"Vuho", {"vu'o"},
     {}>>,
  <<"Vuhu", {"cu'a", "de'o", "fa'i", "fe'a", "fe'i", "fu'u", "ge'a", "gei", "ju'u", "ne'o", "pa'i",
       "pi'a", "pi'i", "re'a", "ri'o", "sa'i", "sa'o", "si'i", "su'i", "te'a", "va'a", "vu'u"},
     {"bai'ei", "bai'i", "bai'i'i", "be'ei'oi", "bei'u'i", "boi'ai", "ca'ei'a", "ca'o'e", "ca'oi",
       "ci'ai'u", "ci'au'i", "ci'o'au", "cu'ai", "cu'au'ei", "da'a'au", "de'au'u", "dei'au'o",
       "di'ei'o'au", "du'a'e", "du'a'o", "du'ei", "fa'ai", "fa'ai'ai", "fa'au", "fau'i", "fe'au'u",
       "fe'ei", "fei'i", "ga'ai", "gau'a", "gu'ai", "gu'au'i", "jau'au", "je'e'e", "ji'e'ai",
       "ji'i'u", "ji'i'u'u", "joi'i", "ka'au", "ku'au'a", "lau'au", "ma'au", "mai'u", "ma'o'e",
       "me'ei'o", "mu'ai'au", "mu'au", "nei'au", "ne'oi", "no'au'au", "pau'a'u", "pau'ei", "pau'oi",
       "pei'e'a", "pi'au'e", "pi'ei", "pi'ei'au", "pi'ei'oi", "po'i'oi", "ra'i'e", "rai'i", "ru'ei",
       "sau'i", "se'i'a'o", "si'oi'e", "su'i'e", "su'i'o", "tai'e'i", "tai'i'e", "te'au'u",
       "te'i'ai", "tei'au", "te'o'a", "te'oi'i", "to'ei'au", "vau'i", "vei'u", "vi'oi'au",
       "vo'au'u", "xa'ai", "xo'ei", "xo'e'o'ei", "za'ei", "zei'i'au", "zi'a'o", "zu'oi"}>>,
  <<"Xi", {"xi"},
     {"fau'e", "te'ai", "xi'e", "xi'i"}>>,
  <<"Y", {},
     {"ie'o", "ko'o'o'o'o"}>>,
  <<"Zaho", {"za'o", "ba'o", "pu'o", "ca'o", "co'a", "co'i", "co'u", "de'a", "di'a", "mo'u"},
     {"sau'a", "xo'u", "ca'o'a", "co'a'a", "co'au'a", "co'u'a", "xa'o"}>>,
  <<"Zei", {"zei"},
     {}>>,
  <<"Zeha", {"ze'a", "ze'e", "ze'i", "ze'u"},
     {"zei'au"}>>,
  <<"Zi", {"zi", "za", "zu"},
     {"za'ai"}>>,
  <<"Zihe", {"zi'e"},
     {}>>,
  <<"Zo", {"zo"},
     {"ra'ai", "doi'u", "ma'oi", "ma'oi'e"}>>,
  <<"Zoi", {"zoi", "la'o"},
     {}>>,
  <<"Zohu", {"zo'u"},
     {"fi'ai", "ge'ai", "ke'au", "ce'ai"}>>,
  <<"Bahei", {},
     {"ba'ei"}>>,
  <<"Beihe", {},
     {"bei'e"}>>,
  <<"Boihoi", {},
     {"boi'oi"}>>,
  <<"Cahei", {},
     {"ca'ei", "pu'ei"}>>,
  <<"Ceheihoi", {},
     {"ce'ei'oi"}>>,
  <<"Cohai", {},
     {"co'ai"}>>,
  <<"Cohehohe", {},
     {"co'e'o'e"}>>,
  <<"Cohuho", {},
     {"co'u'o"}>>,
  <<"Cuhau", {},
     {"cu'au"}>>,
  <<"Dauho", {},
     {"dau'o"}>>,
  <<"Dehai", {},
     {"de'ai"}>>,
  <<"Dehau", {},
     {"dau'a", "de'au", "de'oi", "doi'a"}>>,
  <<"Dohoi", {},
     {"do'oi"}>>,
  <<"Fauha", {},
     {"fau'a", "fau'ai"}>>,
  <<"Fahoho", {},
     {"fa'o'o"}>>,
  <<"Fihoi", {},
     {"fi'oi"}>>,
  <<"Foihe", {},
     {"foi'e"}>>,
  <<"Gahuhau", {},
     {"ga'u'au", "ni'a'a"}>>,
  <<"Gehuhi", {},
     {"ge'u'i"}>>,
  <<"Gihei", {},
     {"gi'ei"}>>,
  <<"Gihoi", {},
     {"gi'oi"}>>,
  <<"Gohoi", {},
     {"bo'ei", "go'oi", "sau'e", "ta'ai", "ze'oi"}>>,
  <<"Ihau", {},
     {"iau", "i'au"}>>,
  <<"Jaiha", {},
     {"jai'a"}>>,
  <<"Jaihi", {},
     {"jai'i"}>>,
  <<"Jauhu", {},
     {"jau'u"}>>,
  <<"Jahoi", {},
     {"fau'au", "ja'oi"}>>,
  <<"Jihoi", {},
     {"ji'oi", "ni'oi"}>>,
  <<"Joihi", {},
     {"boi'au", "fa'ei", "gei'i'e"}>>,
  <<"Johe", {},
     {"xa'ei'o", "xa'ei'u"}>>,
  <<"Juhau", {},
     {"ju'au"}>>,
  <<"Juhei", {},
     {"ju'ei"}>>,
  <<"Juhuhi", {},
     {"ju'u'i"}>>,
  <<"Kauhai", {},
     {"kau'ai", "kau'au"}>>,
  <<"Kauhu", {},
     {"kau'u"}>>,
  <<"Keihau", {},
     {"kei'au"}>>,
  <<"Keihi", {},
     {"kei'i"}>>,
  <<"Kehei", {},
     {"ke'ei"}>>,
  <<"Keheiha", {},
     {"ke'ei'a"}>>,
  <<"Kehehau", {},
     {"ke'e'au"}>>,
  <<"Kehehu", {},
     {"ke'e'u"}>>,
  <<"Kehuhi", {},
     {"ke'u'i"}>>,
  <<"Kuhau", {},
     {"ku'au"}>>,
  <<"Kuhei", {},
     {"ku'ei"}>>,
  <<"Kuhoihu", {},
     {"ku'oi'u"}>>,
  <<"Kyhoi", {},
     {"fy'oi", "ky'oi"}>>,
  <<"Lehai", {},
     {"le'ai"}>>,
  <<"Lihau", {},
     {"li'au"}>>,
  <<"Lihei", {},
     {"li'ei"}>>,
  <<"Lohai", {},
     {"lo'ai", "sa'ai"}>>,
  <<"Lohoi", {},
     {"fo'ai", "ko'ai", "koi'i", "lo'oi", "mau'a", "xau'a", "xu'u"}>>,
  <<"Luhei", {},
     {"lu'ei"}>>,
  <<"Mauhau", {},
     {"mau'au"}>>,
  <<"Mauhe", {},
     {"mau'e"}>>,
  <<"Mauho", {},
     {"mau'o"}>>,
  <<"Meihe", {},
     {"mei'e"}>>,
  <<"Meiho", {},
     {"mei'o"}>>,
  <<"Mehoi", {},
     {"me'oi"}>>,
  <<"Muhoi", {},
     {"mu'oi"}>>,
  <<"Muhohu", {},
     {"mu'o'u"}>>,
  <<"Neihai", {},
     {"nei'ai"}>>,
  <<"Noiha", {},
     {"noi'a", "poi'a", "poi'o'a", "soi'a"}>>,
  <<"Noihau", {},
     {"noi'au", "poi'au"}>>,
  <<"Noihahu", {},
     {"noi'a'u", "poi'a'u"}>>,
  <<"Noihi", {},
     {"noi'i"}>>,
  <<"Nohoi", {},
     {"no'oi", "po'oi"}>>,
  <<"Rauho", {},
     {"rau'oi"}>>,
  <<"Rehaihe", {},
     {"re'ai'e"}>>,
  <<"Sauhu", {},
     {"sau'u"}>>,
  <<"Sahau", {},
     {"sa'au"}>>,
  <<"Sahoi", {},
     {"sa'oi"}>>,
  <<"Seihau", {},
     {"sei'au"}>>,
  <<"Seiho", {},
     {"sei'o"}>>,
  <<"Sehehi", {},
     {"se'e'i", "te'e'a", "te'e'i", "ve'e'a", "ve'e'i", "ve'e'u", "xe'e'i", "xe'e'o", "xe'e'u",
       "ze'e'a", "ze'e'au", "ze'e'e", "ze'e'i", "ze'e'o", "ze'e'u"}>>,
  <<"Sehoihoi", {},
     {"se'oi'oi"}>>,
  <<"Sihihei", {},
     {"si'i'ei"}>>,
  <<"Sihihoi", {},
     {"si'i'oi"}>>,
  <<"Sihoi", {},
     {"si'oi"}>>,
  <<"Soihi", {},
     {"soi'i"}>>,
  <<"Sohehai", {},
     {"so'e'ai"}>>,
  <<"Sohoi", {},
     {"so'oi"}>>,
  <<"Taihu", {},
     {"tai'u"}>>,
  <<"Tauho", {},
     {"tau'o"}>>,
  <<"Tahoi", {},
     {"ta'oi"}>>,
  <<"Tahuhi", {},
     {"ta'u'i", "ta'u'u"}>>,
  <<"Teihu", {},
     {"tei'u"}>>,
  <<"Tehoihoi", {},
     {"te'oi'oi"}>>,
  <<"Toihe", {},
     {"toi'e"}>>,
  <<"Toiho", {},
     {"toi'o"}>>,
  <<"Vauhehoi", {},
     {"vau'e'oi"}>>,
  <<"Vauhohoi", {},
     {"vau'o'oi"}>>,
  <<"Vuhoi", {},
     {"vu'oi"}>>,
  <<"Vyhy", {},
     {"vy'y"}>>,
  <<"Xauheho", {},
     {"xau'e'o"}>>,
  <<"Xahoihahoiha", {},
     {"xa'oi'a'oi'a"}>>,
  <<"Xehau", {},
     {"xe'au"}>>,
  <<"Xoi", {},
     {"no'au", "xoi"}>>,
  <<"Xoha", {},
     {"xo'a"}>>,
  <<"Xohehohe", {},
     {"xo'e'o'e"}>>,
  <<"Xohi", {},
     {"xo'i"}>>,
  <<"Xuhau", {},
     {"xu'au"}>>,
  <<"Yhi", {},
     {"ji'o'e", "y'i"}>>,
  <<"Zaihai", {},
     {"zai'ai"}>>,
  <<"Zaihu", {},
     {"rai'o", "zai'u"}>>,
  <<"Zauhehu", {},
     {"zau'e'u"}>>,
  <<"Zeihei", {},
     {"zei'ei"}>>,
  <<"Zeihoi", {},
     {"zei'oi"}>>,
  <<"Ziheha", {},
     {"zi'e'a", "zi'e'e", "zi'e'i", "zi'e'o", "zi'e'u"}>>,
  <<"Zihehau", {},
     {"zi'e'au"}>>,
  <<"Zihoi", {},
     {"zei'o", "zi'oi"}>>,
  <<"Zoihai", {},
     {"zoi'ai"}>>,
  <<"Zoihohe", {},
     {"zoi'ai'e", "zoi'o'e"}>>,
  <<"Zohau", {},
     {"zo'au"}>>,
  <<"Zohehu", {},
     {"zo'e'u"}>>,
  <<"Zohiho", {},
     {"zo'i'o"}>>,
  <<"Zohoi", {},
     {"la'oi", "ra'oi", "zo'oi"}>>
>>

\* selmaho -> conventional name
SelmahoRepr == [
  A |-> "A",
  Bai |-> "BAI",
  Bahe |-> "BAhE",
  Be |-> "BE",
  Bei |-> "BEI",
  Beho |-> "BEhO",
  Bihe |-> "BIhE",
  Bihi |-> "BIhI",
  Bo |-> "BO",
  Boi |-> "BOI",
  Bu |-> "BU",
  By |-> "BY",
  Cai |-> "CAI",
  Caha |-> "CAhA",
  Cei |-> "CEI",
  Cehe |-> "CEhE",
  Co |-> "CO",
  Coi |-> "COI",
  Cu |-> "CU",
  Cuhe |-> "CUhE",
  Daho |-> "DAhO",
  Doi |-> "DOI",
  Dohu |-> "DOhU",
  Fa |-> "FA",
  Faha |-> "FAhA",
  Faho |-> "FAhO",
  Fehe |-> "FEhE",
  Fehu |-> "FEhU",
  Fiho |-> "FIhO",
  Foi |-> "FOI",
  Fuha |-> "FUhA",
  Fuhe |-> "FUhE",
  Fuho |-> "FUhO",
  Ga |-> "GA",
  Gaho |-> "GAhO",
  Gehu |-> "GEhU",
  Gi |-> "GI",
  Giha |-> "GIhA",
  Goi |-> "GOI",
  Goha |-> "GOhA",
  Guha |-> "GUhA",
  I |-> "I",
  Ja |-> "JA",
  Jai |-> "JAI",
  Joi |-> "JOI",
  Johi |-> "JOhI",
  Ke |-> "KE",
  Kei |-> "KEI",
  Kehe |-> "KEhE",
  Ki |-> "KI",
  Koha |-> "KOhA",
  Ku |-> "KU",
  Kuhe |-> "KUhE",
  Kuho |-> "KUhO",
  La |-> "LA",
  Lau |-> "LAU",
  Lahe |-> "LAhE",
  Le |-> "LE",
  Lehu |-> "LEhU",
  Li |-> "LI",
  Lihu |-> "LIhU",
  Loho |-> "LOhO",
  Lohu |-> "LOhU",
  Lu |-> "LU",
  Luhu |-> "LUhU",
  Mai |-> "MAI",
  Maho |-> "MAhO",
  Me |-> "ME",
  Mehu |-> "MEhU",
  Moi |-> "MOI",
  Mohe |-> "MOhE",
  Mohi |-> "MOhI",
  Na |-> "NA",
  Nai |-> "NAI",
  Nahe |-> "NAhE",
  Nahu |-> "NAhU",
  Nihe |-> "NIhE",
  Niho |-> "NIhO",
  Noi |-> "NOI",
  Nu |-> "NU",
  Nuha |-> "NUhA",
  Nuhi |-> "NUhI",
  Nuhu |-> "NUhU",
  Pa |-> "PA",
  Pehe |-> "PEhE",
  Peho |-> "PEhO",
  Pu |-> "PU",
  Raho |-> "RAhO",
  Roi |-> "ROI",
  Sa |-> "SA",
  Se |-> "SE",
  Sei |-> "SEI",
  Sehu |-> "SEhU",
  Si |-> "SI",
  Soi |-> "SOI",
  Su |-> "SU",
  Tahe |-> "TAhE",
  Tei |-> "TEI",
  Tehu |-> "TEhU",
  To |-> "TO",
  Toi |-> "TOI",
  Tuhe |-> "TUhE",
  Tuhu |-> "TUhU",
  Ui |-> "UI",
  Va |-> "VA",
  Vau |-> "VAU",
  Vei |-> "VEI",
  Veha |-> "VEhA",
  Veho |-> "VEhO",
  Viha |-> "VIhA",
  Vuho |-> "VUhO",
  Vuhu |-> "VUhU",
  Xi |-> "XI",
  Y |-> "Y",
  Zaho |-> "ZAhO",
  Zei |-> "ZEI",
  Zeha |-> "ZEhA",
  Zi |-> "ZI",
  Zihe |-> "ZIhE",
  Zo |-> "ZO",
  Zoi |-> "ZOI",
  Zohu |-> "ZOhU",
  Bahei |-> "BAhEI",
  Beihe |-> "BEIhE",
  Boihoi |-> "BOIhOI",
  Boihohu |-> "BOIhOhU",
  Cahei |-> "CAhEI",
  Ceheihoi |-> "CEhEIhOI",
  Cohai |-> "COhAI",
  Cohehohe |-> "COhEhOhE",
  Cohuho |-> "COhUhO",
  Cuhau |-> "CUhAU",
  Dauho |-> "DAUhO",
  Dehai |-> "DEhAI",
  Dehau |-> "DEhAU",
  Dohoi |-> "DOhOI",
  Fauha |-> "FAUhA",
  Fahoho |-> "FAhOhO",
  Fihoi |-> "FIhOI",
  Foihe |-> "FOIhE",
  Gahuhau |-> "GAhUhAU",
  Gehuhi |-> "GEhUhI",
  Gihei |-> "GIhEI",
  Gihoi |-> "GIhOI",
  Gohoi |-> "GOhOI",
  Ihau |-> "IhAU",
  Jaiha |-> "JAIhA",
  Jaihi |-> "JAIhI",
  Jauhu |-> "JAUhU",
  Jahoi |-> "JAhOI",
  Jihoi |-> "JIhOI",
  Joihi |-> "JOIhI",
  Johe |-> "JOhE",
  Juhau |-> "JUhAU",
  Juhei |-> "JUhEI",
  Juhuhi |-> "JUhUhI",
  Kauhai |-> "KAUhAI",
  Kauhu |-> "KAUhU",
  Keihau |-> "KEIhAU",
  Keihi |-> "KEIhI",
  Kehai |-> "KEhAI",
  Kehei |-> "KEhEI",
  Keheiha |-> "KEhEIhA",
  Kehehau |-> "KEhEhAU",
  Kehehu |-> "KEhEhU",
  Kehuhi |-> "KEhUhI",
  Kuhau |-> "KUhAU",
  Kuhei |-> "KUhEI",
  Kuhoihu |-> "KUhOIhU",
  Kyhoi |-> "KYhOI",
  Lehai |-> "LEhAI",
  Lihau |-> "LIhAU",
  Lihei |-> "LIhEI",
  Lohai |-> "LOhAI",
  Lohoi |-> "LOhOI",
  Luhei |-> "LUhEI",
  Mauhau |-> "MAUhAU",
  Mauhe |-> "MAUhE",
  Mauho |-> "MAUhO",
  Meihe |-> "MEIhE",
  Meiho |-> "MEIhO",
  Mehoi |-> "MEhOI",
  Muhoi |-> "MUhOI",
  Muhohu |-> "MUhOhU",
  Neihai |-> "NEIhAI",
  Noiha |-> "NOIhA",
  Noihau |-> "NOIhAU",
  Noihahu |-> "NOIhAhU",
  Noihi |-> "NOIhI",
  Nohoi |-> "NOhOI",
  Rauho |-> "RAUhO",
  Rehaihe |-> "REhAIhE",
  Sauhu |-> "SAUhU",
  Sahau |-> "SAhAU",
  Sahoi |-> "SAhOI",
  Seihau |-> "SEIhAU",
  Seiho |-> "SEIhO",
  Sehehi |-> "SEhEhI",
  Sehoihoi |-> "SEhOIhOI",
  Sihihei |-> "SIhIhEI",
  Sihihoi |-> "SIhIhOI",
  Sihoi |-> "SIhOI",
  Soihi |-> "SOIhI",
  Sohehai |-> "SOhEhAI",
  Sohoi |-> "SOhOI",
  Taihu |-> "TAIhU",
  Tauho |-> "TAUhO",
  Tahoi |-> "TAhOI",
  Tahuhi |-> "TAhUhI",
  Teihu |-> "TEIhU",
  Tehoihoi |-> "TEhOIhOI",
  Toihe |-> "TOIhE",
  Toiho |-> "TOIhO",
  Vauhehoi |-> "VAUhEhOI",
  Vauhohoi |-> "VAUhOhOI",
  Vuhoi |-> "VUhOI",
  Vyhy |-> "VYhY",
  Xauhe |-> "XAUhE",
  Xauheho |-> "XAUhEhO",
  Xauho |-> "XAUhO",
  Xauhoi |-> "XAUhOI",
  Xauhoho |-> "XAUhOhO",
  Xahoihahoiha |-> "XAhOIhAhOIhA",
  Xehau |-> "XEhAU",
  Xoi |-> "XOI",
  Xoha |-> "XOhA",
  Xohehohe |-> "XOhEhOhE",
  Xohi |-> "XOhI",
  Xuhau |-> "XUhAU",
  Yhi |-> "YhI",
  Zaihai |-> "ZAIhAI",
  Zaihu |-> "ZAIhU",
  Zauhehu |-> "ZAUhEhU",
  Zeihei |-> "ZEIhEI",
  Zeihoi |-> "ZEIhOI",
  Ziheha |-> "ZIhEhA",
  Zihehau |-> "ZIhEhAU",
  Zihoi |-> "ZIhOI",
  Zoihai |-> "ZOIhAI",
  Zoihohe |-> "ZOIhOhE",
  Zohau |-> "ZOhAU",
  Zohehu |-> "ZOhEhU",
  Zohiho |-> "ZOhIhO",
  Zohoi |-> "ZOhOI",
  Gismu |-> "gismu",
  Fuhivla |-> "fuhivla",
  Lujvo |-> "lujvo",
  Cmevla |-> "cmevla",
  UnknownCmavo |-> "(unknown cmavo)",
  AnyText |-> "(any text)",
  ZoiDelimiter |-> "(zoi delimiter)"
]

FundamentallyExperimental == {
  "Bahei", "Beihe", "Boihoi", "Boihohu", "Cahei", "Ceheihoi", "Cohai", "Cohehohe",
  "Cohuho", "Cuhau", "Dauho", "Dehai", "Dehau", "Dohoi", "Fauha", "Fahoho",
  "Fihoi", "Foihe", "Gahuhau", "Gehuhi", "Gihei", "Gihoi", "Gohoi", "Ihau",
  "Jaiha", "Jaihi", "Jauhu", "Jahoi", "Jihoi", "Joihi", "Johe", "Juhau",
  "Juhei", "Juhuhi", "Kauhai", "Kauhu", "Keihau", "Keihi", "Kehai", "Kehei",
  "Keheiha", "Kehehau", "Kehehu", "Kehuhi", "Kuhau", "Kuhei", "Kuhoihu", "Kyhoi",
  "Lehai", "Lihau", "Lihei", "Lohai", "Lohoi", "Luhei", "Mauhau", "Mauhe",
  "Mauho", "Meihe", "Meiho", "Mehoi", "Muhoi", "Muhohu", "Neihai", "Noiha",
  "Noihau", "Noihahu", "Noihi", "Nohoi", "Rauho", "Rehaihe", "Sauhu", "Sahau",
  "Sahoi", "Seihau", "Seiho", "Sehehi", "Sehoihoi", "Sihihei", "Sihihoi", "Sihoi",
  "Soihi", "Sohehai", "Sohoi", "Taihu", "Tauho", "Tahoi", "Tahuhi", "Teihu",
  "Tehoihoi", "Toihe", "Toiho", "Vauhehoi", "Vauhohoi", "Vuhoi", "Vyhy", "Xauhe",
  "Xauheho", "Xauho", "Xauhoi", "Xauhoho", "Xahoihahoiha", "Xehau", "Xoi", "Xoha",
  "Xohehohe", "Xohi", "Xuhau", "Yhi", "Zaihai", "Zaihu", "Zauhehu", "Zeihei",
  "Zeihoi", "Ziheha", "Zihehau", "Zihoi", "Zoihai", "Zoihohe", "Zohau", "Zohehu",
  "Zohiho", "Zohoi", "UnknownCmavo"}
=============================================================================

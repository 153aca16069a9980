// the selmaho the specification speaks about
#[macro_export]
macro_rules! selmaho_names { ($m:ident) => { $m! {
A, Bai, Bahe, Be, Bei, Beho, Bihe, Bihi, Bo, Boi, Bu, By, Cai, Caha, Cei, Cehe, Co, Coi, Cu, Cuhe,
Daho, Doi, Dohu, Fa, Faha, Faho, Fehe, Fehu, Fiho, Foi, Fuha, Fuhe, Fuho, Ga, Gaho, Gehu, Gi, Giha,
Goi, Goha, Guha, I, Ja, Jai, Joi, Johi, Ke, Kei, Kehe, Ki, Koha, Ku, Kuhe, Kuho, La, Lau, Lahe, Le,
Lehu, Li, Lihu, Loho, Lohu, Lu, Luhu, Mai, Maho, Me, Mehu, Moi, Mohe, Mohi, Na, Nai, Nahe, Nahu,
Nihe, Niho, Noi, Nu, Nuha, Nuhi, Nuhu, Pa, Pehe, Peho, Pu, Raho, Roi, Sa, Se, Sei, Sehu, Si, Soi,
Su, Tahe, Tei, Tehu, To, Toi, Tuhe, Tuhu, Ui, Va, Vau, Vei, Veha, Veho, Viha, Vuho, Vuhu, Xi, Y,
Zaho, Zei, Zeha, Zi, Zihe, Zo, Zoi, Zohu, Bahei, Beihe, Boihoi, Boihohu, Cahei, Ceheihoi, Cohai,
Cohehohe, Cohuho, Cuhau, Dauho, Dehai, Dehau, Dohoi, Fauha, Fahoho, Fihoi, Foihe, Gahuhau, Gehuhi,
Gihei, Gihoi, Gohoi, Ihau, Jaiha, Jaihi, Jauhu, Jahoi, Jihoi, Joihi, Johe, Juhau, Juhei, Juhuhi,
Kauhai, Kauhu, Keihau, Keihi, Kehai, Kehei, Keheiha, Kehehau, Kehehu, Kehuhi, Kuhau, Kuhei, Kuhoihu,
Kyhoi, Lehai, Lihau, Lihei, Lohai, Lohoi, Luhei, Mauhau, Mauhe, Mauho, Meihe, Meiho, Mehoi, Muhoi,
Muhohu, Neihai, Noiha, Noihau, Noihahu, Noihi, Nohoi, Rauho, Rehaihe, Sauhu, Sahau, Sahoi, Seihau,
Seiho, Sehehi, Sehoihoi, Sihihei, Sihihoi, Sihoi, Soihi, Sohehai, Sohoi, Taihu, Tauho, Tahoi,
Tahuhi, Teihu, Tehoihoi, Toihe, Toiho, Vauhehoi, Vauhohoi, Vuhoi, Vyhy, Xauhe, Xauheho, Xauho,
Xauhoi, Xauhoho, Xahoihahoiha, Xehau, Xoi, Xoha, Xohehohe, Xohi, Xuhau, Yhi, Zaihai, Zaihu, Zauhehu,
Zeihei, Zeihoi, Ziheha, Zihehau, Zihoi, Zoihai, Zoihohe, Zohau, Zohehu, Zohiho, Zohoi, Gismu,
Fuhivla, Lujvo, Cmevla, UnknownCmavo, AnyText, ZoiDelimiter
} } }

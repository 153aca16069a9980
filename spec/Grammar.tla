------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The concrete syntax of Lojban text as an ordered-choice grammar: one    *)
(* production per grammatical construct.  GRules maps the name of a        *)
(* production to its expression.  The names of tree nodes are observable   *)
(* (TreeNode::name), the names of productions are not.                     *)
(***************************************************************************)
EXTENDS PegExpr

Frees == N("Frees")
WF(e) == S(<<e, Frees>>)                          \* a word with free modifiers
TagW  == N("TagWords")

SumtiLike(normal, group) ==
  Enum("SumtiLikeConnectedPost", <<
    <<"Normal",  <<N("JoikEk"), normal>>>>,
    <<"Grouped", <<N("JoikEk"), O(TagW), WF(T("Ke")), group, O(T("Kehe")), Frees>>>> >>)
SelbriLike(normal, group) ==
  Enum("SelbriLikeConnectedPost", <<
    <<"Normal",        <<N("JoikJek"), normal>>>>,
    <<"Parenthesized", <<N("JoikJek"), O(TagW), WF(T("Ke")), group, O(T("Kehe")), Frees>>>> >>)
NaheGuhekTGik(e) ==
  Str("NaheGuhekTGik", <<O(T("Nahe")), Frees, N("Guhek"), e, N("Gik")>>)
NaSeTNai(sel) == Str("NaSeTNai", <<O(T("Na")), O(T("Se")), T(sel), O(T("Nai"))>>)

GRules == [
  \* ---------------------------------------------------------------- text
  Text |-> Str("Text", <<O(N("Indicators")), Frees, O(N("ParagraphSeparator")),
                         O(N("Paragraphs")), O(T("Faho"))>>),
  Frees |-> M0(N("Free")),
  Paragraphs |-> Str("Paragraphs", <<Sep(N("Paragraph"), N("ParagraphSeparator"))>>),
  Paragraph  |-> Str("Paragraph", <<O(N("SentenceSeparator")),
                                    Sep(N("ParagraphItem"), N("SentenceSeparator"))>>),
  ParagraphItem |-> Alt(<<MC(Nd("ParagraphItem::Sentences", N("Sentences1"))),
                          Nd("ParagraphItem::Fragment", N("Fragment")),
                          Nd("ParagraphItem::Empty", S(<<>>))>>),
  Fragment |-> Enum("Fragment", <<
     <<"Ek",     <<WF(N("Ek"))>>>>,
     <<"Jek",    <<WF(N("Jek"))>>>>,
     <<"Joik",   <<WF(N("Joik"))>>>>,
     <<"Gihek",  <<WF(N("Gihek"))>>>>,
     <<"Number", <<N("Quantifier")>>>>,
     <<"Na",     <<T("Na"), Not(T("Ja")), Frees>>>> >>),
  Sentences1 |-> Str("Sentences1", <<M0(N("Prenex")),
                       Sep(N("Sentences2"), N("ConnectedSentenceSeparator"))>>),
  Sentences2 |-> Sep(N("Sentences3"), N("CloseSentenceSeparator")),
  Sentences3 |-> Enum("Sentences3", <<
     <<"Grouped", <<O(TagW), WF(T("Tuhe")), N("Paragraphs"), O(T("Tuhu")), Frees>>>>,
     <<"Single",  <<N("Sentence")>>>> >>),
  ParagraphSeparator |-> Str("ParagraphSeparator", <<M1(T("Niho")), Frees>>),
  SentenceSeparator  |-> Str("SentenceSeparator", <<T("I"), Not(BuTok), Frees>>),
  ConnectedSentenceSeparator |->
     Str("ConnectedSentenceSeparator", <<T("I"), N("JoikJek"), Frees>>),
  CloseSentenceSeparator |->
     Str("CloseSentenceSeparator", <<T("I"), O(N("JoikJek")), O(TagW), T("Bo"), Frees>>),
  Sentence |-> Str("Sentence", <<N("Args"), O(N("SentenceTail"))>>),
  SentenceTail |-> Str("SentenceTail", <<O(T("Cu")), Frees, N("SentenceTail1")>>),
  SentenceTail1 |-> Str("SentenceTail1", <<N("SentenceTail2"), O(N("SentenceTail1After"))>>),
  SentenceTail1After |-> Str("SentenceTail1After", <<
     N("Gihek"), O(TagW), T("Ke"), Frees, N("SentenceTail1"), O(T("Kehe")), Frees, N("TailArgs")>>),
  SentenceTail2 |-> Str("SentenceTail2", <<N("SentenceTail3"), O(N("SentenceTail2After"))>>),
  SentenceTail2Connective |-> Str("SentenceTail2Connective",
     <<N("Gihek"), Not(S(<<O(TagW), T("Ke")>>)), Frees>>),
  SentenceTail2After |-> Str("SentenceTail2After", <<
     M1(S(<<N("SentenceTail2Connective"), N("SentenceTail3")>>)), N("TailArgs")>>),
  SentenceTail3 |-> Str("SentenceTail3", <<N("SentenceTail4"), O(N("SentenceTail3After"))>>),
  SentenceTail3After |-> Str("SentenceTail3After", <<
     M1(S(<<N("Gihek"), O(TagW), T("Bo"), Frees, N("SentenceTail4")>>)), N("TailArgs")>>),
  SentenceTail4 |-> Enum("SentenceTail4", <<
     <<"Single", <<N("Selbri"), N("TailArgs")>>>>,
     <<"Parenthesized", <<M0(WF(T("Na"))), O(TagW), WF(T("Ke")), N("GekSentence"),
                          O(T("Kehe")), Frees>>>>,
     <<"Connected", <<N("GekSentence")>>>> >>),
  GekSentence |-> Str("GekSentence", <<M0(WF(T("Na"))), N("Gek"), N("Subsentence"),
                                       N("Gik"), N("Subsentence"), N("TailArgs")>>),
  Subsentence |-> Str("Subsentence", <<M0(N("Prenex")), N("Args"), N("SentenceTail")>>),
  Args     |-> M0(N("Arg")),
  TailArgs |-> S(<<N("Args"), O(T("Vau")), Frees>>),
  Prenex   |-> Str("Prenex", <<N("Args"), T("Zohu"), Frees>>),
  \* --------------------------------------------------------------- terms
  Arg  |-> Str("Arg", <<N("Arg1"), M0(SumtiLike(N("Arg1"), N("Arg")))>>),
  Arg1 |-> Sep(N("Arg2"), N("PeheConnective")),
  PeheConnective |-> Str("PeheConnective", <<WF(T("Pehe")), N("JoikJek")>>),
  Arg2 |-> Sep(N("Arg3"), WF(T("Cehe"))),
  Arg3 |-> Enum("Arg3", <<
     <<"Tag",     <<N("Tag")>>>>,
     <<"Sumti",   <<O(WF(T("Fa"))), N("Sumti")>>>>,
     <<"Naku",    <<T("Na"), T("Ku"), Frees>>>>,
     <<"Termset", <<N("Termset")>>>> >>),
  Termset |-> Enum("Termset", <<
     <<"Gek",    <<N("Gek"), N("Args"), N("Gik"), N("Args")>>>>,
     <<"NuhiGi", <<WF(T("Nuhi")), N("Gek"), N("Args"), O(T("Nuhu")), Frees,
                   N("Gik"), N("Args"), O(T("Nuhu")), Frees>>>>,
     <<"Nuhi",   <<WF(T("Nuhi")), N("Args"), O(T("Nuhu")), Frees>>>> >>),
  \* -------------------------------------------------------------- selbri
  Selbri |-> Str("Selbri", <<M0(N("SelbriBefore")), N("Selbri1")>>),
  SelbriBefore |-> Enum("SelbriBefore", << <<"Na", <<WF(T("Na"))>>>>, <<"Tag", <<TagW>>>> >>),
  Selbri1 |-> Str("Selbri1", <<Sep(N("Selbri2"), WF(T("Co")))>>),
  Selbri2 |-> Str("Selbri2", <<M1(N("Selbri3"))>>),
  Selbri3 |-> Str("Selbri3", <<N("Selbri4"), M0(SelbriLike(N("Selbri4"), N("Selbri2")))>>),
  Selbri4 |-> Str("Selbri4", <<Sep(N("Selbri5"), S(<<N("JoikJek"), O(TagW), T("Bo"), Frees>>))>>),
  Selbri5 |-> Str("Selbri5", <<M0(NaheGuhekTGik(N("Selbri"))), N("Selbri6")>>),
  Selbri6 |-> Str("Selbri6", <<Sep(N("TanruUnit"), WF(T("Bo")))>>),
  TanruUnit |-> Str("TanruUnit", <<Sep(N("TanruUnit1"), WF(T("Cei")))>>),
  TanruUnit1 |-> Str("TanruUnit1", <<M0(N("BeforeTanruUnit")), N("TanruUnit2"),
                                     O(N("BoundArguments"))>>),
  BeforeTanruUnit |-> Enum("BeforeTanruUnit", <<
     <<"Jai",  <<WF(T("Jai")), O(TagW)>>>>,
     <<"Nahe", <<WF(T("Nahe"))>>>>,
     <<"Se",   <<WF(T("Se"))>>>> >>),
  BoundArguments |-> Str("BoundArguments", <<WF(T("Be")), Sep(N("Arg"), WF(T("Bei"))),
                                             O(T("Beho")), Frees>>),
  TanruUnit2 |-> Enum("TanruUnit2", <<
     <<"GroupedTanru", <<WF(T("Ke")), N("Selbri2"), O(T("Kehe")), Frees>>>>,
     <<"Gismu",   <<WF(T("Gismu"))>>>>,
     <<"Lujvo",   <<WF(T("Lujvo"))>>>>,
     <<"Fuhivla", <<WF(T("Fuhivla"))>>>>,
     <<"Zei",     <<WF(N("ZeiClause"))>>>>,
     <<"Goha",    <<T("Goha"), O(T("Raho")), Frees>>>>,
     <<"Moi",     <<N("MiscNumbers"), T("Moi"), Frees>>>>,
     <<"Me",      <<WF(T("Me")), N("Sumti"), O(T("Mehu")), Frees, O(WF(T("Moi")))>>>>,
     <<"Nu",      <<Sep(S(<<T("Nu"), O(T("Nai")), Frees>>), N("JoikJek")),
                    N("Subsentence"), O(T("Kei")), Frees>>>>,
     <<"Nuha",    <<WF(T("Nuha")), N("Operator")>>>> >>),
  ZeiClause |-> Str("ZeiClause", <<M0(TR("Bahe")), N("BuInner"), M0(N("ZeiBuInner")), N("ZeiTail"),
                                   Not(TI("Zei")), Not(BuTok), O(N("Indicators"))>>),
  ZeiBuInner |-> Str("ZeiBuInner", <<O(N("ZeiTail")), M1(BuTok)>>),
  ZeiTail |-> Str("ZeiTail", <<M1(S(<<TI("Zei"), AnyTok>>))>>),
  \* ---------------------------------------------------------------- tags
  Tag |-> Str("Tag", <<TagW, Not(N("Gik")), Not(T("Ke")), O(N("TagValue"))>>),
  TagValue |-> Enum("TagValue", << <<"Ku", <<WF(T("Ku"))>>>>, <<"Sumti", <<N("Sumti")>>>> >>),
  TagWords |-> Sep(N("TagWord"), N("JoikJek")),
  TagWord |-> Enum("TagWord", <<
     <<"Bai", <<O(T("Nahe")), O(T("Se")), T("Bai"), O(T("Nai")), O(T("Ki")), Frees>>>>,
     <<"TimeSpaceCaha", <<O(T("Nahe")), M1(N("TimeSpaceCaha")), O(T("Ki")), Frees>>>>,
     <<"Ki",   <<T("Ki"), Frees>>>>,
     <<"Cuhe", <<T("Cuhe"), Frees>>>>,
     <<"Converted", <<WF(T("Fiho")), N("Selbri"), O(T("Fehu")), Frees>>>> >>),
  TimeSpaceCaha |-> Enum("TimeSpaceCaha", <<
     <<"Time", <<N("Time")>>>>, <<"Space", <<N("Space")>>>>, <<"Caha", <<T("Caha")>>>> >>),
  Time  |-> MC(Str("Time", <<O(T("Zi")), M0(N("TimeOffset")), O(N("TimeDuration")),
                             M0(N("IntervalProperty"))>>)),
  TimeOffset   |-> Str("TimeOffset", <<T("Pu"), O(T("Nai")), O(T("Zi"))>>),
  TimeDuration |-> Str("TimeDuration", <<T("Zeha"), O(S(<<T("Pu"), O(T("Nai"))>>))>>),
  IntervalProperty |-> Enum("IntervalProperty", <<
     <<"Roi",  <<N("Number"), T("Roi"), O(T("Nai"))>>>>,
     <<"Tahe", <<T("Tahe"), O(T("Nai"))>>>>,
     <<"Zaho", <<T("Zaho"), O(T("Nai"))>>>> >>),
  Space |-> MC(Str("Space", <<O(T("Va")), M0(N("SpaceOffset")), O(N("SpaceInterval")),
                              O(N("SpaceMotion"))>>)),
  SpaceOffset |-> Str("SpaceOffset", <<T("Faha"), O(T("Nai")), O(T("Va"))>>),
  SpaceInterval |-> Enum("SpaceInterval", <<
     <<"Interval", <<Alt(<<T("Viha"), S(<<T("Veha"), T("Viha")>>), T("Veha")>>),
                     O(S(<<T("Faha"), O(T("Nai"))>>)), M0(N("SpaceIntervalProperty"))>>>>,
     <<"Properties", <<M1(N("SpaceIntervalProperty"))>>>> >>),
  SpaceIntervalProperty |-> Str("SpaceIntervalProperty", <<T("Fehe"), N("IntervalProperty")>>),
  SpaceMotion |-> Str("SpaceMotion", <<T("Mohi"), N("SpaceOffset")>>),
  \* --------------------------------------------------------------- sumti
  Sumti  |-> Str("Sumti", <<N("Sumti1"), O(N("VuhoRelative"))>>),
  Sumti1 |-> Str("Sumti1", <<N("Sumti2"), M0(SumtiLike(N("Sumti2"), N("Sumti")))>>),
  Sumti2 |-> Sep(N("Sumti3"), S(<<N("JoikEk"), O(TagW), T("Bo"), Frees>>)),
  VuhoRelative |-> Str("VuhoRelative", <<WF(T("Vuho")), N("RelativeClauses")>>),
  RelativeClauses |-> Str("RelativeClauses", <<Sep(N("RelativeClause"), WF(T("Zihe")))>>),
  RelativeClause |-> Enum("RelativeClause", <<
     <<"Goi", <<Str("GoiRelativeClause", <<WF(T("Goi")), N("Arg"), O(T("Gehu")), Frees>>)>>>>,
     <<"Noi", <<Str("NoiRelativeClause", <<WF(T("Noi")), N("Subsentence"), O(T("Kuho")), Frees>>)>>>> >>),
  Sumti3 |-> Str("Sumti3", <<M0(Str("Sumti3ConnectedPre", <<N("Gek"), N("Sumti"), N("Gik")>>)),
                             N("Sumti4")>>),
  Sumti4 |-> Enum("Sumti4", <<
     <<"Normal", <<O(N("Quantifier")), N("SumtiComponent"), O(N("RelativeClauses"))>>>>,
     <<"SelbriShorthand", <<N("Quantifier"), N("Selbri"), O(T("Ku")), Frees,
                            O(N("RelativeClauses"))>>>> >>),
  Quantifier |-> Enum("Quantifier", <<
     <<"Mekso",  <<WF(T("Vei")), N("Expression"), O(T("Veho")), Frees>>>>,
     <<"Number", <<N("Number"), Not(T("Moi")), O(T("Boi")), Frees>>>> >>),
  Number |-> Str("Number", <<T("Pa"), M0(N("NumberRest"))>>),
  NumberRest |-> Enum("NumberRest", << <<"Pa", <<T("Pa")>>>>, <<"Lerfu", <<N("LerfuWord")>>>> >>),
  LerfuString |-> Str("LerfuString", <<N("LerfuWord"), M0(N("NumberRest"))>>),
  MiscNumbers |-> Str("MiscNumbers", <<M1(N("NumberRest"))>>),
  LerfuWord |-> Enum("LerfuWord", <<
     <<"Lerfu", <<N("Lerfu")>>>>,
     <<"Lau",   <<T("Lau"), N("Lerfu")>>>>,
     <<"Tei",   <<T("Tei"), N("LerfuString"), Cut(T("Foi"))>>>> >>),
  Lerfu |-> Enum("Lerfu", <<
     <<"Bu", <<O(TR("Bahe")), N("BuInner"), M0(N("BuZeiInner")), M1(BuTok), M0(N("Indicators"))>>>>,
     <<"By", <<T("By")>>>> >>),
  BuZeiInner |-> Str("BuZeiInner", <<M0(BuTok), N("ZeiTail")>>),
  BuInner |-> Nd("BuInner", AnyBut({"Bu", "Zei", "Si", "Su", "Sa", "Faho"})),
  SumtiComponent |-> WF(N("SumtiComponent1")),
  SumtiComponent1 |-> Enum("SumtiComponent1", <<
     <<"Koha",  <<T("Koha")>>>>,
     <<"Gadri", <<N("GadriSumti")>>>>,
     <<"La",    <<Str("LaSumti", <<T("La"), M1(T("Cmevla"))>>)>>>>,
     <<"Lohu",  <<Nd("LohuSumti", S(<<TR("Lohu"), Cut(Till(AnyTok, T("Lehu")))>>))>>>>,
     <<"Lu",    <<Str("LuSumti", <<TR("Lu"), N("Text"), O(T("Lihu"))>>)>>>>,
     <<"Modified", <<Str("ModifiedSumti", <<WF(N("SumtiModifier")), O(N("RelativeClauses")),
                                            N("Sumti"), O(T("Luhu"))>>)>>>>,
     <<"LerfuString", <<N("LerfuString"), Not(T("Moi")), O(T("Boi"))>>>>,
     <<"Zo",    <<Str("ZoSumti", <<TR("Zo"), AnyTok>>)>>>>,
     <<"Zoi",   <<Str("ZoiSumti", <<TR("Zoi"), As("ZoiDelimiter", {}),
                                    O(As("ZoiText", {"AnyText"})), As("ZoiDelimiter", {})>>)>>>>,
     <<"Li",    <<WF(T("Li")), N("Expression"), O(T("Loho"))>>>> >>),
  SumtiModifier |-> Enum("SumtiModifier", <<
     <<"Lahe", <<T("Lahe")>>>>, <<"NaheBo", <<T("Nahe"), T("Bo")>>>> >>),
  GadriSumti |-> Str("GadriSumti", <<WF(N("Gadri")), N("GadriSumtiPre"), N("GadriSumtiContents"),
                                     O(T("Ku"))>>),
  Gadri |-> Enum("Gadri", << <<"Le", <<T("Le")>>>>, <<"La", <<T("La")>>>> >>),
  GadriSumtiPre |-> Alt(<<S(<<O(N("SumtiComponent")), O(N("RelativeClauses"))>>),
                          N("RelativeClauses"), N("Sumti")>>),
  GadriSumtiContents |-> Enum("GadriSumtiContents", <<
     <<"Selbri", <<O(N("Quantifier")), N("Selbri"), O(N("RelativeClauses"))>>>>,
     <<"Sumti",  <<N("Quantifier"), N("Sumti")>>>> >>),
  \* ------------------------------------------------------ free modifiers
  Free |-> Enum("Free", <<
     <<"Sei", <<WF(T("Sei")), N("Args"),
                O(Str("SeiTail", <<O(T("Cu")), Frees, N("Selbri")>>)), O(WF(T("Sehu")))>>>>,
     <<"Soi", <<WF(T("Soi")), N("Sumti"), O(N("Sumti")), O(T("Sehu"))>>>>,
     <<"Vocative", <<N("Vocative")>>>>,
     <<"Mai", <<N("MiscNumbers"), T("Mai")>>>>,
     <<"To",  <<T("To"), N("Text"), O(T("Toi"))>>>>,
     <<"Xi",  <<Str("Subscript", <<WF(T("Xi")), WF(N("SubscriptValue"))>>)>>>> >>),
  Vocative |-> Str("Vocative", <<N("VocativeWords"), O(N("RelativeClauses")), N("VocativeValue"),
                                 O(N("RelativeClauses")), O(T("Dohu"))>>),
  VocativeWords |-> Enum("VocativeWords", <<
     <<"Coi", <<M1(S(<<T("Coi"), O(T("Nai"))>>)), O(T("Doi"))>>>>,
     <<"Doi", <<T("Doi")>>>> >>),
  VocativeValue |-> Enum("VocativeValue", <<
     <<"Selbri", <<N("Selbri")>>>>,
     <<"Cmevla", <<M1(T("Cmevla"))>>>>,
     <<"Sumti",  <<O(N("Sumti"))>>>> >>),
  SubscriptValue |-> Enum("SubscriptValue", <<
     <<"Mekso",  <<WF(T("Vei")), N("Expression"), O(T("Veho")), Frees>>>>,
     <<"Number", <<N("MiscNumbers"), Not(T("Moi")), O(T("Boi")), Frees>>>> >>),
  Indicators |-> Str("Indicators", <<O(TI("Fuhe")), M1(N("Indicator"))>>),
  Indicator |-> S(<<Enum("Indicator", <<
     <<"Ui", <<T("Ui")>>>>, <<"Cai", <<T("Cai")>>>>, <<"Nai", <<T("Nai")>>>>,
     <<"Daho", <<T("Daho")>>>>, <<"Fuho", <<T("Fuho")>>>>, <<"Y", <<T("Y")>>>> >>), Not(BuTok)>>),
  \* --------------------------------------------------------- connectives
  Ek    |-> Str("Ek",    <<NaSeTNai("A")>>),
  Jek   |-> Str("Jek",   <<NaSeTNai("Ja")>>),
  Gihek |-> Str("Gihek", <<NaSeTNai("Giha")>>),
  Guhek |-> Str("Guhek", <<O(T("Se")), T("Guha"), O(T("Nai")), Frees>>),
  Interval |-> Str("Interval", <<O(T("Se")), T("Bihi"), O(T("Nai"))>>),
  Joik |-> Enum("Joik", <<
     <<"SeJoiNai", <<O(T("Se")), T("Joi"), O(T("Nai"))>>>>,
     <<"Interval", <<N("Interval")>>>>,
     <<"Gaho",     <<T("Gaho"), N("Interval"), Cut(T("Gaho"))>>>> >>),
  Gik |-> Str("Gik", <<T("Gi"), O(T("Nai")), Frees>>),
  Gek |-> Enum("Gek", <<
     <<"SeGaNai", <<O(T("Se")), T("Ga"), O(T("Nai")), Frees>>>>,
     <<"JoikGi",  <<N("Joik"), T("Gi"), Frees>>>>,
     <<"TagGik",  <<TagW, N("Gik")>>>> >>),
  JoikJek |-> Enum("JoikJek", << <<"Joik", <<N("Joik")>>>>, <<"Jek", <<N("Jek")>>>> >>),
  JoikEk  |-> Enum("JoikEk",  << <<"Joik", <<N("Joik"), Frees>>>>, <<"Ek", <<N("Ek"), Frees>>>> >>),
  \* --------------------------------------------------------------- mekso
  Expression |-> Enum("Expression", <<
     <<"ReversePolish", <<WF(T("Fuha")), N("ReversePolish")>>>>,
     <<"Normal", <<Sep(Sep(N("Expression1"), S(<<WF(T("Bihe")), N("Operator")>>)),
                       N("Operator"))>>>> >>),
  ReversePolish |-> Str("ReversePolish", <<N("Operand"),
                        M0(Str("RPTail", <<N("ReversePolish"), N("Operator")>>))>>),
  Expression1 |-> Enum("Expression1", <<
     <<"Operand", <<N("Operand")>>>>,
     <<"Forethought", <<Str("ForethoughtExpression", <<O(WF(T("Peho"))), N("Operator"),
                            M1(N("Expression1")), O(T("Kuhe")), Frees>>)>>>> >>),
  Operand  |-> Str("Operand", <<N("Operand1"), M0(SumtiLike(N("Operand1"), N("Operand")))>>),
  Operand1 |-> Str("Operand1", <<Sep(N("Operand2"), S(<<N("JoikEk"), O(TagW), WF(T("Bo"))>>))>>),
  Operand2 |-> Str("Operand2", <<M0(Str("Operand2ConnectedPre",
                                       <<N("Gek"), N("Operand"), N("Gik")>>)), N("Operand3")>>),
  Operand3 |-> Enum("Operand3", <<
     <<"Nihe", <<WF(T("Nihe")), N("Selbri"), O(T("Tehu")), Frees>>>>,
     <<"Mohe", <<WF(T("Mohe")), N("Sumti"), O(T("Tehu")), Frees>>>>,
     <<"Johi", <<WF(T("Johi")), M1(N("Expression1")), O(T("Tehu")), Frees>>>>,
     <<"Modified", <<N("SumtiModifier"), N("Operand"), O(T("Luhu"))>>>>,
     <<"Parenthesized", <<WF(T("Vei")), N("Expression"), O(T("Veho")), Frees>>>>,
     <<"Number", <<N("MiscNumbers"), Not(T("Moi")), O(T("Boi")), Frees>>>> >>),
  Operator  |-> Str("Operator", <<N("Operator1"), M0(SelbriLike(N("Operator1"), N("Operator")))>>),
  Operator1 |-> Str("Operator1", <<M0(NaheGuhekTGik(N("Operator1"))), N("Operator2")>>),
  Operator2 |-> Str("Operator2", <<Sep(N("Operator3"), S(<<N("JoikJek"), O(TagW), WF(T("Bo"))>>))>>),
  Operator3 |-> Enum("Operator3", <<
     <<"Simple",  <<N("OperatorComponent")>>>>,
     <<"Grouped", <<WF(T("Ke")), N("Operator"), T("Kehe"), Frees>>>> >>),
  OperatorComponent |-> Str("OperatorComponent", <<
     M0(Enum("OperatorComponentPre", << <<"Nahe", <<WF(T("Nahe"))>>>>, <<"Se", <<WF(T("Se"))>>>> >>)),
     Enum("OperatorComponent1", <<
       <<"Maho", <<WF(T("Maho")), N("Expression"), O(T("Tehu")), Frees>>>>,
       <<"Nahu", <<WF(T("Nahu")), N("Selbri"), O(T("Tehu")), Frees>>>>,
       <<"Vuhu", <<WF(T("Vuhu"))>>>> >>)>>)
]
=============================================================================

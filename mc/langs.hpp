// Golden copy of the documented language table and locale.alias names (pinned tree).
#pragma once
namespace ref {
struct LangRow { const char *l, *c, *m, *name, *local; };
static const LangRow LANGS[] = {
  {"aa", "", "", "Afar", "ʿAfár af"},
  {"af", "", "", "Afrikaans", "Afrikaans"},
  {"af", "ZA", "", "Afrikaans (South Africa)", ""},
  {"am", "", "", "Amharic", "ኣማርኛ"},
  {"ar", "", "", "Arabic", "العربية"},
  {"ar", "AR", "", "Arabic (Argentina)", ""},
  {"ar", "OM", "", "Arabic (Oman)", ""},
  {"ar", "SA", "", "Arabic (Saudi Arabia)", ""},
  {"ar", "SY", "", "Arabic (Syrian Arab Republic)", ""},
  {"ar", "TN", "", "Arabic (Tunisia)", ""},
  {"as", "", "", "Assamese", "অসমীয়া"},
  {"ast", "", "", "Asturian", "Asturianu"},
  {"ay", "", "", "Aymara", "aymar aru"},
  {"az", "", "", "Azerbaijani", "Azərbaycanca"},
  {"az", "IR", "", "Azerbaijani (Iran)", ""},
  {"be", "", "", "Belarusian", "Беларуская мова"},
  {"be", "", "latin", "Belarusian", "Беларуская мова"},
  {"bg", "", "", "Bulgarian", "български"},
  {"bg", "BG", "", "Bulgarian (Bulgaria)", ""},
  {"bn", "", "", "Bengali", "বাংলা"},
  {"bn", "BD", "", "Bengali (Bangladesh)", ""},
  {"bn", "IN", "", "Bengali (India)", ""},
  {"bo", "", "", "Tibetan", "བོད་སྐད་"},
  {"br", "", "", "Breton", "brezhoneg"},
  {"bs", "", "", "Bosnian", "Bosanski"},
  {"bs", "BA", "", "Bosnian (Bosnia/Herzegovina)", ""},
  {"bs", "BS", "", "Bosnian (Bahamas)", ""},
  {"ca", "ES", "valencia", "Catalan (valencia)", ""},
  {"ca", "ES", "", "Catalan (Spain)", ""},
  {"ca", "", "valencia", "Catalan (valencia)", ""},
  {"ca", "", "", "Catalan", ""},
  {"cmn", "", "", "Mandarin", ""},
  {"co", "", "", "Corsican", "corsu"},
  {"cs", "", "", "Czech", "Čeština"},
  {"cs", "CZ", "", "Czech (Czech Republic)", "Čeština (Česká Republika)"},
  {"cy", "", "", "Welsh", "Welsh"},
  {"cy", "GB", "", "Welsh (Great Britain)", "Welsh (Great Britain)"},
  {"cz", "", "", "Unknown language", "Unknown language"},
  {"da", "", "", "Danish", "Dansk"},
  {"da", "DK", "", "Danish (Denmark)", "Dansk (Danmark)"},
  {"de", "", "", "German", "Deutsch"},
  {"de", "AT", "", "German (Austria)", "Deutsch (Österreich)"},
  {"de", "CH", "", "German (Switzerland)", "Deutsch (Schweiz)"},
  {"de", "DE", "", "German (Germany)", "Deutsch (Deutschland)"},
  {"dk", "", "", "Unknown language", "Unknown language"},
  {"dz", "", "", "Dzongkha", "རྫོང་ཁ"},
  {"el", "", "", "Greek", "ελληνικά"},
  {"el", "GR", "", "Greek (Greece)", ""},
  {"en", "", "", "English", "English"},
  {"en", "AU", "", "English (Australia)", "English (Australia)"},
  {"en", "CA", "", "English (Canada)", "English (Canada)"},
  {"en", "GB", "", "English (Great Britain)", "English (Great Britain)"},
  {"en", "US", "", "English (United States)", "English (United States)"},
  {"en", "ZA", "", "English (South Africa)", "English (South Africa)"},
  {"en", "", "boldquot", "English", "English"},
  {"en", "", "quot", "English", "English"},
  {"en", "US", "piglatin", "English", "English"},
  {"eo", "", "", "Esperanto", "Esperanto"},
  {"es", "", "", "Spanish", "Español"},
  {"es", "AR", "", "Spanish (Argentina)", ""},
  {"es", "CL", "", "Spanish (Chile)", ""},
  {"es", "CO", "", "Spanish (Colombia)", ""},
  {"es", "CR", "", "Spanish (Costa Rica)", ""},
  {"es", "DO", "", "Spanish (Dominican Republic)", ""},
  {"es", "EC", "", "Spanish (Ecuador)", ""},
  {"es", "ES", "", "Spanish (Spain)", ""},
  {"es", "GT", "", "Spanish (Guatemala)", ""},
  {"es", "HN", "", "Spanish (Honduras)", ""},
  {"es", "LA", "", "Spanish (Laos)", ""},
  {"es", "MX", "", "Spanish (Mexico)", ""},
  {"es", "NI", "", "Spanish (Nicaragua)", ""},
  {"es", "PA", "", "Spanish (Panama)", ""},
  {"es", "PE", "", "Spanish (Peru)", ""},
  {"es", "PR", "", "Spanish (Puerto Rico)", ""},
  {"es", "SV", "", "Spanish (El Salvador)", ""},
  {"es", "UY", "", "Spanish (Uruguay)", ""},
  {"es", "VE", "", "Spanish (Venezuela)", ""},
  {"et", "", "", "Estonian", "eesti keel"},
  {"et", "EE", "", "Estonian (Estonia)", ""},
  {"et", "ET", "", "Estonian (Ethiopia)", ""},
  {"eu", "", "", "Basque", "euskara"},
  {"eu", "ES", "", "Basque (Spain)", ""},
  {"fa", "", "", "Persian", "فارسى"},
  {"fa", "AF", "", "Persian (Afghanistan)", ""},
  {"fa", "IR", "", "Persian (Iran)", ""},
  {"fi", "", "", "Finnish", "suomi"},
  {"fi", "FI", "", "Finnish (Finland)", ""},
  {"fo", "", "", "Faroese", "Føroyskt"},
  {"fo", "FO", "", "Faeroese (Faroe Islands)", ""},
  {"fr", "", "", "French", "Français"},
  {"fr", "CA", "", "French (Canada)", "Français (Canada)"},
  {"fr", "CH", "", "French (Switzerland)", "Français (Suisse)"},
  {"fr", "FR", "", "French (France)", "Français (France)"},
  {"fr", "LU", "", "French (Luxembourg)", "Français (Luxembourg)"},
  {"fy", "", "", "Frisian", "Frysk"},
  {"ga", "", "", "Irish", "Gaeilge"},
  {"gd", "", "", "Gaelic Scots", "Gàidhlig"},
  {"gl", "", "", "Galician", "Galego"},
  {"gl", "ES", "", "Galician (Spain)", ""},
  {"gn", "", "", "Guarani", "Avañe'ẽ"},
  {"gu", "", "", "Gujarati", "ગુજરાતી"},
  {"gv", "", "", "Manx", "Gaelg"},
  {"ha", "", "", "Hausa", "حَوْسَ"},
  {"he", "", "", "Hebrew", "עברית"},
  {"he", "IL", "", "Hebrew (Israel)", ""},
  {"hi", "", "", "Hindi", "हिन्दी"},
  {"hi", "IN", "", "Hindi (India)", ""},
  {"hr", "", "", "Croatian", "Hrvatski"},
  {"hr", "HR", "", "Croatian (Croatia)", ""},
  {"hu", "", "", "Hungarian", "magyar"},
  {"hu", "HU", "", "Hungarian (Hungary)", ""},
  {"hy", "", "", "Armenian", "Հայերեն"},
  {"ia", "", "", "Interlingua", "Interlingua"},
  {"id", "", "", "Indonesian", "Bahasa Indonesia"},
  {"id", "ID", "", "Indonesian (Indonesia)", ""},
  {"is", "", "", "Icelandic", "Íslenska"},
  {"is", "IS", "", "Icelandic (Iceland)", ""},
  {"it", "", "", "Italian", "Italiano"},
  {"it", "CH", "", "Italian (Switzerland)", ""},
  {"it", "IT", "", "Italian (Italy)", ""},
  {"iu", "", "", "Inuktitut", "ᐃᓄᒃᑎᑐᑦ/inuktitut"},
  {"ja", "", "", "Japanese", "日本語"},
  {"ja", "JP", "", "Japanese (Japan)", ""},
  {"ka", "", "", "Georgian", "ქართული"},
  {"kk", "", "", "Kazakh", "Қазақша"},
  {"kl", "", "", "Kalaallisut", "Kalaallisut"},
  {"km", "", "", "Khmer", "ភាសាខ្មែរ"},
  {"km", "KH", "", "Khmer (Cambodia)", ""},
  {"kn", "", "", "Kannada", "ಕನ್ನಡ"},
  {"ko", "", "", "Korean", "한국어"},
  {"ko", "KR", "", "Korean (Korea)", ""},
  {"ku", "", "", "Kurdish", "Kurdî"},
  {"kw", "", "", "Cornish", "Kernowek"},
  {"ky", "", "", "Kirghiz", ""},
  {"la", "", "", "Latin", "Latina"},
  {"lo", "", "", "Lao", "ລາວ"},
  {"lt", "", "", "Lithuanian", "Lietuvių"},
  {"lt", "LT", "", "Lithuanian (Lithuania)", ""},
  {"lv", "", "", "Latvian", "Latviešu"},
  {"lv", "LV", "", "Latvian (Latvia)", ""},
  {"jbo", "", "", "Lojban", "La .lojban."},
  {"mg", "", "", "Malagasy", "Malagasy"},
  {"mi", "", "", "Maori", "Māori"},
  {"mk", "", "", "Macedonian", "Македонски"},
  {"mk", "MK", "", "Macedonian (Macedonia)", ""},
  {"ml", "", "", "Malayalam", "മലയാളം"},
  {"mn", "", "", "Mongolian", "Монгол"},
  {"mr", "", "", "Marathi", "मराठी"},
  {"ms", "", "", "Malay", "Bahasa Melayu"},
  {"ms", "MY", "", "Malay (Malaysia)", ""},
  {"mt", "", "", "Maltese", "Malti"},
  {"my", "", "", "Burmese", "မြန်မာဘာသာ"},
  {"my", "MM", "", "Burmese (Myanmar)", ""},
  {"nb", "", "", "Norwegian Bokmal", ""},
  {"nb", "NO", "", "Norwegian Bokmål (Norway)", ""},
  {"nds", "", "", "Low German", ""},
  {"ne", "", "", "Nepali", ""},
  {"nl", "", "", "Dutch", "Nederlands"},
  {"nl", "BE", "", "Dutch (Belgium)", ""},
  {"nl", "NL", "", "Dutch (Netherlands)", ""},
  {"nn", "", "", "Norwegian Nynorsk", "Norsk nynorsk"},
  {"nn", "NO", "", "Norwegian Nynorsk (Norway)", ""},
  {"no", "", "", "Norwegian", "Norsk bokmål"},
  {"no", "NO", "", "Norwegian (Norway)", ""},
  {"no", "NY", "", "Norwegian (NY)", ""},
  {"nr", "", "", "Ndebele, South", ""},
  {"oc", "", "", "Occitan post 1500", "Occitan"},
  {"om", "", "", "Oromo", "Oromoo"},
  {"or", "", "", "Oriya", "ଓଡ଼ିଆ"},
  {"pa", "", "", "Punjabi", "ਪੰਜਾਬੀ"},
  {"pl", "", "", "Polish", "Polski"},
  {"pl", "PL", "", "Polish (Poland)", ""},
  {"ps", "", "", "Pashto", "پښتو"},
  {"pt", "", "", "Portuguese", "Português"},
  {"pt", "BR", "", "Portuguese (Brazil)", ""},
  {"pt", "PT", "", "Portuguese (Portugal)", ""},
  {"qu", "", "", "Quechua", "Runa Simi"},
  {"rm", "", "", "Rhaeto-Romance", "Rumantsch"},
  {"ro", "", "", "Romanian", "Română"},
  {"ro", "RO", "", "Romanian (Romania)", ""},
  {"ru", "", "", "Russian", "Русский"},
  {"ru", "RU", "", "Russian (Russia", ""},
  {"rw", "", "", "Kinyarwanda", "Kinyarwanda"},
  {"sa", "", "", "Sanskrit", ""},
  {"sd", "", "", "Sindhi", ""},
  {"se", "", "", "Sami", "Sámegiella"},
  {"se", "NO", "", "Sami (Norway)", ""},
  {"si", "", "", "Sinhalese", ""},
  {"sk", "", "", "Slovak", "Slovenčina"},
  {"sk", "SK", "", "Slovak (Slovakia)", ""},
  {"sl", "", "", "Slovenian", "Slovenščina"},
  {"sl", "SI", "", "Slovenian (Slovenia)", ""},
  {"sl", "SL", "", "Slovenian (Sierra Leone)", ""},
  {"sm", "", "", "Samoan", ""},
  {"so", "", "", "Somali", ""},
  {"sp", "", "", "Unknown language", ""},
  {"sq", "", "", "Albanian", "Shqip"},
  {"sq", "AL", "", "Albanian (Albania)", ""},
  {"sr", "", "", "Serbian", "Српски / srpski"},
  {"sr", "YU", "", "Serbian (Yugoslavia)", ""},
  {"sr", "", "ije", "Serbian", ""},
  {"sr", "", "latin", "Serbian", ""},
  {"sr", "", "Latn", "Serbian", ""},
  {"ss", "", "", "Swati", ""},
  {"st", "", "", "Sotho", ""},
  {"sv", "", "", "Swedish", "Svenska"},
  {"sv", "SE", "", "Swedish (Sweden)", ""},
  {"sv", "SV", "", "Swedish (El Salvador)", ""},
  {"sw", "", "", "Swahili", ""},
  {"ta", "", "", "Tamil", ""},
  {"te", "", "", "Telugu", ""},
  {"tg", "", "", "Tajik", ""},
  {"th", "", "", "Thai", "ไทย"},
  {"th", "TH", "", "Thai (Thailand)", ""},
  {"ti", "", "", "Tigrinya", ""},
  {"tk", "", "", "Turkmen", ""},
  {"tl", "", "", "Tagalog", ""},
  {"to", "", "", "Tonga", ""},
  {"tr", "", "", "Turkish", "Türkçe"},
  {"tr", "TR", "", "Turkish (Turkey)", ""},
  {"ts", "", "", "Tsonga", ""},
  {"tt", "", "", "Tatar", ""},
  {"ug", "", "", "Uighur", ""},
  {"uk", "", "", "Ukrainian", "Українська"},
  {"uk", "UA", "", "Ukrainian (Ukraine)", ""},
  {"ur", "", "", "Urdu", ""},
  {"ur", "PK", "", "Urdu (Pakistan)", ""},
  {"uz", "", "", "Uzbek", ""},
  {"uz", "", "cyrillic", "Uzbek", ""},
  {"vi", "", "", "Vietnamese", "Tiếng Việt"},
  {"vi", "VN", "", "Vietnamese (Vietnam)", ""},
  {"wa", "", "", "Walloon", ""},
  {"wo", "", "", "Wolof", ""},
  {"xh", "", "", "Xhosa", ""},
  {"yi", "", "", "Yiddish", "ייִדיש"},
  {"yo", "", "", "Yoruba", ""},
  {"zh", "", "", "Chinese", "中文"},
  {"zh", "CN", "", "Chinese (simplified)", "中文 (简体)"},
  {"zh", "HK", "", "Chinese (Hong Kong)", "中文 (香港)"},
  {"zh", "TW", "", "Chinese (traditional)", "中文 (繁體)"},
  {"zu", "", "", "Zulu", ""},
};
static const int NLANGS = sizeof LANGS / sizeof *LANGS;
struct Alias { const char *name, *env; };
static const Alias ALIASES[] = {
  {"bokmal", "nb_NO.ISO-8859-1"},
  {"bokmål", "nb_NO.ISO-8859-1"},
  {"catalan", "ca_ES.ISO-8859-1"},
  {"croatian", "hr_HR.ISO-8859-2"},
  {"czech", "cs_CZ.ISO-8859-2"},
  {"danish", "da_DK.ISO-8859-1"},
  {"dansk", "da_DK.ISO-8859-1"},
  {"deutsch", "de_DE.ISO-8859-1"},
  {"dutch", "nl_NL.ISO-8859-1"},
  {"eesti", "et_EE.ISO-8859-1"},
  {"estonian", "et_EE.ISO-8859-1"},
  {"finnish", "fi_FI.ISO-8859-1"},
  {"français", "fr_FR.ISO-8859-1"},
  {"french", "fr_FR.ISO-8859-1"},
  {"galego", "gl_ES.ISO-8859-1"},
  {"galician", "gl_ES.ISO-8859-1"},
  {"german", "de_DE.ISO-8859-1"},
  {"greek", "el_GR.ISO-8859-7"},
  {"hebrew", "he_IL.ISO-8859-8"},
  {"hrvatski", "hr_HR.ISO-8859-2"},
  {"hungarian", "hu_HU.ISO-8859-2"},
  {"icelandic", "is_IS.ISO-8859-1"},
  {"italian", "it_IT.ISO-8859-1"},
  {"japanese", "ja_JP.eucJP"},
  {"japanese.euc", "ja_JP.eucJP"},
  {"ja_JP", "ja_JP.eucJP"},
  {"ja_JP.ujis", "ja_JP.eucJP"},
  {"japanese.sjis", "ja_JP.SJIS"},
  {"korean", "ko_KR.eucKR"},
  {"korean.euc", "ko_KR.eucKR"},
  {"ko_KR", "ko_KR.eucKR"},
  {"lithuanian", "lt_LT.ISO-8859-13"},
  {"no_NO", "nb_NO.ISO-8859-1"},
  {"no_NO.ISO-8859-1", "nb_NO.ISO-8859-1"},
  {"norwegian", "nb_NO.ISO-8859-1"},
  {"nynorsk", "nn_NO.ISO-8859-1"},
  {"polish", "pl_PL.ISO-8859-2"},
  {"portuguese", "pt_PT.ISO-8859-1"},
  {"romanian", "ro_RO.ISO-8859-2"},
  {"russian", "ru_RU.ISO-8859-5"},
  {"slovak", "sk_SK.ISO-8859-2"},
  {"slovene", "sl_SI.ISO-8859-2"},
  {"slovenian", "sl_SI.ISO-8859-2"},
  {"spanish", "es_ES.ISO-8859-1"},
  {"swedish", "sv_SE.ISO-8859-1"},
  {"thai", "th_TH.TIS-620"},
  {"turkish", "tr_TR.ISO-8859-9"},
};
static const int NALIASES = sizeof ALIASES / sizeof *ALIASES;
}

REGISTRY = {
    "C01": ("total", "total", dict(types=["soundex::Soundex", "refined_soundex::RefinedSoundex"], must=["Encoder>::encode for soundex::Soundex", "Encoder>::encode for refined_soundex::RefinedSoundex", "difference for soundex::Soundex"])),
    "C02": ("total", "total", dict(types=["nysiis::Nysiis"], must=["Encoder>::encode for nysiis::Nysiis"])),
    "C03": ("total", "total", dict(types=["phonex::Phonex"], must=["Encoder>::encode for phonex::Phonex"])),
    "C04": ("total", "total", dict(types=["metaphone::Metaphone"], must=["Encoder>::encode for metaphone::Metaphone"])),
    "C05": ("total", "total", dict(types=["double_metaphone::DoubleMetaphone", "double_metaphone::DoubleMetaphoneResult"], must=["Encoder>::encode for double_metaphone::DoubleMetaphone", "double_metaphone::DoubleMetaphone::is_double_metaphone_equal"])),
    "C06": ("total", "total", dict(types=["match_rating_approach::MatchRatingApproach"], must=["Encoder>::encode for match_rating", "Encoder>::is_encoded_equals for match_rating"])),
    "C07": ("total", "total", dict(types=["caverphone::Caverphone1", "caverphone::Caverphone2", "cologne::Cologne"], must=["Encoder>::encode for caverphone::Caverphone1", "Encoder>::encode for caverphone::Caverphone2", "Encoder>::encode for cologne::Cologne"])),
    "C08": ("total", "total", dict(types=["daitch_mokotoff::DaitchMokotoffSoundex"], must=["Encoder>::encode for daitch", "soundex", "inner_soundex"], drop=["Default"])),
    "C09": ("total", "modular_total", dict(types=["beider_morse::BeiderMorse"], inv=["beider_morse::rule::Rule"], must=["encode_with_languages", "Encoder>::encode for beider_morse"])),
    "C10": ("total", "modular_total", dict(types=["beider_morse::ConfigFiles", "beider_morse::NameType", "daitch_mokotoff::DaitchMokotoffSoundexBuilder", "beider_morse::languages::LanguageSet"], inv=["beider_morse::rule::Rule"], must=["ConfigFiles::new", "DaitchMokotoffSoundexBuilder::<'a>::build"], drop=["Default"])),
    "C12": ("shape", "soundex", {}),
    "C13": ("shape", "refined", {}),
    "C14": ("shape", "caverphone", {}),
    "C15": ("shape", "cologne", {}),
    "C16": ("shape", "nysiis", {}),
    "C17": ("shape", "meta_all", {}),
    "C18": ("shape", "phonex", {}),
    "C11": ("shape", "charseq", {}),
    "C20": ("shape", "dm", {}),
    "C19": ("shape", "mra", {}),
    "C24": ("effects", "purity", {}),
    "C25": ("effects", "threads", {}),
    "C22": ("flow", "case", {}),
    "C21": ("flow", "dropped", {}),
    "C26": ("values", "equality", {}),
    "C27": ("values", "double_metaphone", {}),
    "C28": ("values", "daitch_mokotoff", {}),
    "C29": ("values", "beider_morse", {}),
    "C30": ("values", "options", {}),
    "C31": ("values", "mappings", {}),
    "C32": ("values", "language_sets", {}),
    "C39": ("term", "ends_all", dict(secs=300)),
}

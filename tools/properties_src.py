"""
The source of properties.jsonl and MANIFEST.json (tools/generate.py writes both).
Each entry: id, title, statement, over, text, why, files, mechanism, technique, note.
"""
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mechanism=mechanism, technique=technique, note=note))


HU = "harmonic_inference/utils/harmonic_utils.py"
HC = "harmonic_inference/utils/harmonic_constants.py"

prop(
    "A01",
    "Pitch names, tonal pitch classes and MIDI pitch classes always agree",
    "For every pitch spelling (letter, upper or lower case, with any number of flats or sharps), its "
    "MIDI pitch class is the correct semitone, its tonal pitch class is the correct position on the "
    "line of fifths (C = 15), and converting either back to a name gives the same pitch. A spelling "
    "outside of the supported tonal range (more than two accidentals) is rejected with a ValueError "
    "instead of being mapped to another pitch. Leading or trailing accidentals of any label are "
    "counted exactly and stripped exactly.",
    ["inputs"],
    "all spellings with up to 6 accidentals, all tonal pitch classes and MIDI pitches far beyond the "
    "valid range, all accidental strings",
    "The tests look at a fixed list of spellings; the conversion is a total function whose corner "
    "(range end, B versus flat sign, enharmonic names) cases need the whole domain.",
    [HU, HC],
    [("get_pitch_from_string / get_pitch_string", HU), ("get_accidental_adjustment", HU),
     ("STRING_TO_PITCH tables", HC)],
    "enumeration and random generation against an independent line-of-fifths model",
    "Exhaustive for all spellings with at most 6 accidentals and all pitches in a range of four "
    "octaves / 155 fifths; random for accidental strings.",
)
prop(
    "A02",
    "Scale degrees, numerals, intervals and transposition obey their algebra",
    "Every scale degree or roman numeral with accidentals denotes the correct interval in major and "
    "minor, in fifths and in semitones (the two agreeing modulo the octave), every interval maps back "
    "to a numeral that denotes it, and chains of applied numerals (V/ii...) resolve from the innermost "
    "key outwards. Transposition is additive and invertible, wraps modulo 12 for MIDI, and for tonal "
    "pitch classes (single pitches, relative pitches, applied keys) rejects with a ValueError every "
    "result outside of the allowed range; transposing a pitch-presence vector moves each pitch by the "
    "interval and drops (tonal) or wraps (MIDI) those leaving the range.",
    ["inputs"],
    "all degrees, accidentals, modes, pitch types, intervals, pitches, applied-numeral chains, vectors",
    "The tests check single examples of each function; the algebraic laws and the TPC/MIDI agreement "
    "quantify over all intervals and keys.",
    [HU, HC],
    [("get_interval_from_scale_degree, get_scale_degree_from_interval", HU),
     ("transpose_pitch, transpose_chord_vector, absolute_to_relative", HU),
     ("decode_relative_keys", HU)],
    "enumeration and random generation against an independent line-of-fifths model",
    "Exhaustive for degrees (up to 3 accidentals) and intervals; random for chains and vectors.",
)
prop(
    "A03",
    "Chord and key label spaces are bijections in every configuration",
    "For every pitch type, with or without inversions, absolute or relative, padded or not, and under "
    "any chord type reduction: the list of labels, the index of a chord (or key), the decoding of an "
    "index and the reported one-hot vector length all describe the same enumeration, with unique "
    "human-readable labels naming exactly that chord (or key). A root or inversion that is outside of "
    "the label space is rejected with a ValueError and never given another chord's index.",
    ["inputs", "configurations"],
    "all label-space configurations, incl. arbitrary reductions, and all chords/keys in them",
    "The tests check a few configurations, none with an arbitrary reduction or rendering relative to a "
    "tonic; encode and decode are separate code that has to agree everywhere.",
    [HU, "harmonic_inference/data/chord.py", "harmonic_inference/data/key.py"],
    [("get_chord_label_list, get_chord_one_hot_index, get_chord_from_one_hot_index", HU),
     ("get_key_label_list, get_key_one_hot_index, get_key_from_one_hot_index", HU),
     ("get_chord_vector_length, get_key_change_vector_length", "harmonic_inference/data/chord.py")],
    "generated configurations; whole label space compared with a reference enumeration",
    "Each generated configuration's label space is enumerated (a random stride for the single-index "
    "functions).",
)
prop(
    "A04",
    "A chord symbol stands for exactly its pitches, bass and alterations",
    "For every chord type and root, the pitch vector contains exactly the chord tones of that type on "
    "that root (those in range), the number of inversions equals the number of chord tones, the bass "
    "note of inversion i is the i-th chord tone (rejected with a ValueError if out of the tonal range), "
    "and chord type strings and figured-bass figures map to their type and inversion and are rejected "
    "otherwise. A string of alterations splits into exactly the alterations it is made of. Each "
    "alteration is reported as the correct new pitch of the local key together with the chord tone it "
    "replaces, or as an addition, independently of the other alterations next to it.",
    ["inputs"],
    "all chord types, roots, inversions, figures; all alteration strings of the annotation grammar with "
    "at most one alteration per replaced tone",
    "No test covers alterations at all; the chord content tests use C and a few transpositions.",
    [HU, HC],
    [("get_vector_from_chord_type, get_bass_note, get_chord_inversion", HU),
     ("split_changes_into_list, get_added_and_removed_pitches", HU), ("CHORD_PITCHES", HC)],
    "enumeration of chords and random alteration strings against an independent chord model",
    "Exhaustive for chord content; random for alterations. When two alterations hit the same tone "
    "(which the returned mapping cannot represent) only membership is checked.",
)

CH = "harmonic_inference/data/chord.py"
KE = "harmonic_inference/data/key.py"
NO = "harmonic_inference/data/note.py"
VD = "harmonic_inference/data/vector_decoding.py"
PI = "harmonic_inference/data/piece.py"
DS = "harmonic_inference/data/datasets.py"
CU = "harmonic_inference/utils/corpus_utils.py"
RU = "harmonic_inference/utils/rhythmic_utils.py"
CC = "harmonic_inference/data/corpus_constants.py"

prop(
    "B01",
    "Note, chord and key change vectors encode exactly the music they stand for",
    "For every chord, the model input vector has the advertised length and contains exactly: the one-hot "
    "root and bass (relative to the key tonic, or to the given tonic), chord type, inversion, the pitches "
    "of the chord, metrical levels and durations, under the given reduction and pitch range; it does "
    "not depend on the absolute transposition of chord and key. Chords out of the relative range are "
    "rejected with a ValueError. The same holds for key change vectors (relative tonic interval and mode) "
    "and for note vectors (pitch class, octave, bass/position flags, and the rhythmic context relative to "
    "the chord range). The decoders of vector_decoding return what was encoded.",
    ["inputs", "configurations"],
    "all chords, keys and notes of both pitch types, in any metrical context and any encoding option",
    "The tests assert no complete vector; the layout is shared implicitly by encoders, decoders, models "
    "and reductions, so any drift corrupts training data silently.",
    [CH, KE, NO, VD],
    [("Chord.to_vec, Chord.get_one_hot_index", CH), ("Key.get_key_change_vector", KE),
     ("Note.to_vec", NO), ("decode_chord_vector, decode_key_change_vector, decode_note_vector", VD)],
    "random chords, keys and notes; vectors compared entry by entry with a reference encoder, "
    "round-trip through the decoders, transposition metamorphic relation",
    "Random search; MIDI notes below 120.",
)
prop(
    "B02",
    "Reducing or transposing encoded data equals encoding the reduced/transposed data",
    "Applying a chord type reduction to a batch of chord vectors (with or without key change columns, "
    "padding rows staying zero) gives the vectors that encoding the reduced chords would give; removing "
    "inversions likewise; mapping one-hot chord labels under a reduction, with or without inversions, "
    "gives the label of the reduced chord in the reduced label space; transposing a note vector "
    "changes only its pitch class, as transposing the note does, and fails with a ValueError when leaving "
    "the tonal range. The inputs are not changed unless in place was asked for.",
    ["inputs", "configurations"],
    "all tensors of chord vectors, all reductions, all label spaces, all intervals",
    "No test covers these functions; they re-implement the vector layout by index arithmetic.",
    [VD, CH],
    [("reduce_chord_types, remove_chord_inversions", VD), ("reduce_chord_one_hots", VD),
     ("transpose_note_vector", VD), ("infer_chord_vector_pitch_type", VD)],
    "random tensors; commuting-square oracle (encode then reduce = reduce then encode)",
    "Random search over 1-6 chords per tensor.",
)
prop(
    "B03",
    "Corpus rows become exactly the notes, chords and keys they describe",
    "Every annotation row (global key, local key numeral, applied root, root, type, figured bass, "
    "position, changes) becomes the Chord and Key with that root, bass, type, inversion, key (relative or "
    "local), position, duration and metrical level, under the given reduction; every note row becomes the "
    "Note with that pitch, octave, position and level. Rows without a chord and rows that the pitch "
    "range cannot represent become None, never another chord, key or note. A shared levels cache never "
    "changes the result.",
    ["inputs", "configurations"],
    "all rows of the corpus format, in all meters and incomplete measures, both pitch types, all options",
    "The corpus data is not available to the tests (they fail without it), so nothing covers this path.",
    [CH, KE, NO, RU],
    [("Chord.from_series", CH), ("Key.from_series", KE), ("Note.from_series", NO),
     ("get_metrical_level", RU)],
    "random corpus rows over random measures against an independent interpretation of the row",
    "Random search.",
)
prop(
    "B04",
    "Labels-csv rows become exactly the chord and key they describe",
    "Every row of a functional-harmony labels csv (key, degree with applied root, quality, inversion, "
    "on/off times in quarter notes) becomes the Key and the Chord with the correct tonic, mode, applied "
    "key, root, type (under the reduction), inversion, bass and metrical position; what cannot be "
    "represented is not given another pitch (or, for unknown applied roots, key).",
    ["inputs", "configurations"],
    "all keys, degrees, applied roots, qualities, inversions and times in measures complete or not",
    "The corpus is not available to the tests; the conventions (leading tone of minor, augmented sixths, "
    "applied keys) interact.",
    [CH, KE],
    [("Chord.from_labels_csv_row", CH), ("Key.from_labels_csv_row", KE)],
    "random label rows over random measures against an independent interpretation of the row",
    "Random search.",
)
prop(
    "B05",
    "Notes, chords and keys survive serialisation, conversion, comparison, merging",
    "For every note, chord and key: the dictionary form holds every field and rebuilds an equal object; "
    "two objects are equal exactly if all fields are; conversion to another pitch type yields a new object "
    "with the same sounding pitches and all other fields, leaving the original as it was; two chords (keys) "
    "count as repeated exactly if they agree in root and type (and inversion, suspension if asked for; for "
    "keys: tonic and mode, relative or local); merging a repeated chord extends only its offset and "
    "duration.",
    ["inputs"],
    "all notes, chords and keys of both pitch types, all options",
    "Serialisation and comparison are written field by field; a dropped field goes unnoticed by examples.",
    [CH, KE, NO],
    [("to_dict, __eq__, to_pitch_type", CH), ("is_repeated, merge_with", CH), ("is_repeated, equals", KE)],
    "random objects; round-trip and single-field mutation oracles",
    "Random search.",
)

CR = "harmonic_inference/data/corpus_reading.py"

prop(
    "C01",
    "Removing repeats keeps exactly one pass through each piece, losing nothing else",
    "For every corpus of pieces with repeated sections and alternate endings, the measures that remain "
    "after removing the repeats are, for each piece separately, exactly the measures of a single pass "
    "(the last ending of each group), in order, with each measure leading to the following one and the "
    "last one to nothing; no piece affects another. Dropping the rows of notes or chords without a "
    "measure keeps exactly those rows whose measure remains, unchanged.",
    ["inputs", "histories"],
    "all corpora of pieces with any structure of repeats and endings, incl. single-measure pieces",
    "The corpus is not available to the tests; their one example has a single piece.",
    [CU],
    [("remove_repeats", CU), ("remove_unmatched", CU)],
    "random repeat structures; the expected pass is known from how the piece was generated",
    "Random search; pieces of up to 8 measures.",
)
prop(
    "C02",
    "Every note sounds exactly as long as written: offsets and merged ties",
    "For every note of a corpus, the computed offset position is the point exactly one duration after "
    "the onset, across barlines, split and incomplete measures, and at most the end of the piece. Merging "
    "ties turns each chain of tied notes into the one note that starts at the chain's first onset and ends "
    "at its last offset, with the summed duration; untied notes, other pitches, other pieces and simultaneous "
    "notes in other voices are left unchanged, no duration is gained or lost, and no tied continuation "
    "remains whose beginning exists.",
    ["inputs", "histories"],
    "all corpora of notes with ties (complete, dangling, crossing measures, interleaved)",
    "Ties make note durations depend on the whole history of a piece; no test with data runs here.",
    [CU],
    [("get_offsets", CU), ("merge_ties", CU)],
    "random notes and chains with the result known by construction; conservation of duration on "
    "arbitrary tie markings",
    "Random search; up to 3 pieces, chains of up to 5 notes.",
)
prop(
    "C03",
    "Every chord lasts exactly until the next chord, or to the end of the piece",
    "For every corpus of chords over measures (with repeats removed), each chord's computed offset is the "
    "onset of the piece's next chord (for the last one: the end of the last measure) and its duration is "
    "the exact time in between, whatever incomplete, split or removed measures lie in between, and "
    "independently of the other pieces of the corpus.",
    ["inputs"],
    "all corpora of annotated pieces, incl. simultaneous chords and several pieces",
    "Durations are exact fractions computed over measure chains; examples cannot cover the structures.",
    [CU, RU],
    [("add_chord_metrical_data", CU), ("get_range_length", RU)],
    "random pieces with known absolute times",
    "Random search.",
)
prop(
    "C04",
    "Loading a corpus directory yields exactly the music of each of its pieces",
    "For every directory of per-piece notes, measures and harmonies files, aggregation and loading give, "
    "for every piece under its file id: the measures of one pass, the merged notes in them with their "
    "offsets, and the chord annotations in them with offsets and durations, in order; pieces "
    "without annotations are kept (without chords) and no piece's data is mixed with another's. Loading "
    "only the first N pieces gives the same data as loading all, restricted to these.",
    ["inputs", "configurations"],
    "all directory contents in the corpus format, annotated or not, in one or several corpora",
    "The loaded corpora are not available to the tests, which therefore fail here; the whole pipeline "
    "(types, joins by index, repeats, ties, offsets) is unexercised.",
    [CR, CU],
    [("aggregate_annotation_dfs", CR), ("load_clean_corpus_dfs", CR)],
    "random directories written to disk; end-to-end comparison with the generated music",
    "Random search; up to 4 small pieces.",
)
prop(
    "C05",
    "Rhythmic computations agree with the absolute time line of the measures",
    "For every piece and any two positions in it, the length of the range between them is the exact "
    "difference of their times on the piece's time line (over incomplete and split measures, removed "
    "measures and meter changes); the proportion of a range at which something lies is linear in time; and "
    "the metrical level of a position is 3 on downbeats, 2 on beats, 1 on sub-beats and 0 elsewhere, for every "
    "simple and compound meter, taking the offset of incomplete measures into account.",
    ["inputs"],
    "all positions in all pieces, all meters",
    "The tests sample positions in regular measures of a few meters.",
    [RU],
    [("get_range_length", RU), ("get_rhythmic_info_as_proportion_of_range", RU),
     ("get_metrical_level, get_metrical_level_lengths", RU)],
    "random measures and positions against exact fraction arithmetic on a time line",
    "Random search.",
)
prop(
    "P01",
    "A piece's notes, chords, chord ranges, keys and change indices are aligned",
    "For every piece read from data frames, the notes are those of the rows; the chords are the "
    "annotations, adjacent annotations of the same chord being merged (inversions and suspensions tell chords "
    "apart if asked for) and unrepresentable ones left out; "
    "each chord's change index is the first note at or after its onset, and its range starts at the first note "
    "that sounds at its onset and ends with the next chord's change; the keys are the runs of equal keys, each starting at the first chord of the run. A "
    "piece rebuilt from its dictionary form is the same piece.",
    ["inputs", "configurations"],
    "all pieces of notes and annotations, all reading options",
    "The alignment of chords, ranges and keys is derived by several loops with index arithmetic; no test "
    "with corpus data runs here.",
    [PI],
    [("get_score_piece_from_data_frames", PI), ("get_reduced_chords, get_chord_ranges", PI),
     ("ScorePiece.to_dict, get_score_piece_from_dict", PI)],
    "random pieces against a direct (per definition) computation of the alignment; dict round-trip",
    "Random search; up to 12 notes and 8 annotations.",
)
prop(
    "P02",
    "Note inputs of a chord are exactly its notes, plus the window around it",
    "For every piece, chord (or arbitrary range of notes) and window size: the note inputs have one row per "
    "note of the range plus the window on both sides, in order, rows outside of the piece being zero, "
    "and each row describes its note relative to that chord: "
    "pitch, octave, lowest note flags, metrical levels and rhythmic position in the chord's time span.",
    ["inputs", "configurations"],
    "all pieces, chord ranges, windows",
    "The windows cross the piece's ends and reuse caches between chords; no test has asserted rows.",
    [PI, NO],
    [("get_chord_note_inputs", PI), ("get_chord_note_input", PI), ("Note.to_vec", NO)],
    "random pieces against a reference computed note by note",
    "Random search; tolerance of half precision.",
)
prop(
    "P03",
    "A MusicXML score with its labels csv becomes the piece that it notates",
    "For every MusicXML score (several parts and voices, chords, tuplets, ties, pick-ups, meter changes, first and "
    "second endings) with labels: the measures are those of one pass with their exact positions; the "
    "notes are exactly the sounding notes (ties merged) with pitch, octave, position, duration and metrical "
    "level; and the labels become the chords, keys, ranges and change indices at their positions.",
    ["inputs"],
    "all scores and labels of the described kind",
    "The scores of the functional harmony corpus are not available to the tests, which fail here.",
    [PI, NO, CH, KE],
    [("get_score_piece_from_music_xml, get_measures_df_from_music21_score", PI),
     ("get_notes_from_music_xml", PI), ("Note.from_music21", NO)],
    "random scores written as MusicXML text; comparison with the generated music",
    "Random search; ties in parts with a single voice.",
)
CTM = "harmonic_inference/models/chord_transition_models.py"
CCM = "harmonic_inference/models/chord_classifier_models.py"
CSM = "harmonic_inference/models/chord_sequence_models.py"
KTM = "harmonic_inference/models/key_transition_models.py"
KSM = "harmonic_inference/models/key_sequence_models.py"
ICM = "harmonic_inference/models/initial_chord_models.py"
JM = "harmonic_inference/models/joint_model.py"
BS = "harmonic_inference/utils/beam_search_utils.py"
FO = "harmonic_inference/utils/forces.py"
EU = "harmonic_inference/utils/eval_utils.py"
DU = "harmonic_inference/utils/data_utils.py"

prop(
    "D01",
    "Training items are exactly the inputs and targets of their pieces",
    "For any list of pieces, every item of the chord transition, chord classification (also for proposed note "
    "ranges), chord sequence, key transition and key sequence datasets is the input and target of its "
    "piece, chord or key: note rows with change flags (the first note and notes simultaneous to the previous one being ignored), "
    "note windows with the chord's label, root, bass and pitches, chord rows relative to their key with key change "
    "columns and the labels or pitches of the following chords (the first chord of a key is masked for pitches), and per key the chords up to and including "
    "the first chord of the next key as seen from the old key, with the change targets or the key change label. "
    "Reductions and the use of inversions apply to inputs and targets as asked, also when changed after "
    "creation; padding does not touch valid entries; neither the order of access, a repeated access, nor batching by a "
    "loader changes an item.",
    ["inputs", "configurations", "histories of accesses"],
    "all lists of pieces, dataset classes, reductions, inversion options, access orders and batch sizes",
    "The existing dataset tests need corpus files that are not there; items depend on other pieces via padding and "
    "on earlier accesses via in-place changes.",
    [DS, PI],
    [("HarmonicDataset.__getitem__, pad", DS), ("ChordTransitionDataset, ChordClassificationDataset", DS),
     ("ChordSequenceDataset, KeyTransitionDataset, KeySequenceDataset", DS),
     ("get_chord_note_inputs, get_key_change_indices", PI)],
    "random pieces; every item against a reference computed from the generated music",
    "Random search; 1-3 pieces of at most 12 notes and 8 chords; torch replaced by a stand-in; half precision tolerance.",
)
prop(
    "D02",
    "Transposition augmentation yields every transposition, or marks it invalid",
    "For every transposition range, the chord classification dataset has one item per chord and interval of the range: its "
    "note inputs with all pitches moved by the interval, its target, root, bass and pitches those of the moved "
    "chord. An item whose notes, root or bass would leave the pitch range is marked as invalid (target -1, length -1, all-zero "
    "inputs) and never silently altered; non-transposed items are unaffected by others being accessed.",
    ["inputs", "configurations", "histories of accesses"],
    "all chords, note windows, transposition ranges, reductions, access orders",
    "No test uses transposition; validity depends on the extremes of each window.",
    [DS, HU],
    [("ChordClassificationDataset.__getitem__ (transposition_range)", DS), ("transpose_note_vector / transpose_chord_vector", HU)],
    "random pieces and ranges against a direct transposition of the generated music",
    "Random search; intervals within -24..24 fifths.",
)
prop(
    "D03",
    "A dataset written to disk and read back has the same items",
    "For every dataset class and option, writing to h5 and reading back gives the same items (in stored precision), whether the data "
    "fit in memory or (the inputs or targets being too large) stay on disk, whether it is padded "
    "afterwards, and when written and read again.",
    ["inputs", "configurations", "faults"],
    "all datasets, memory errors at either read",
    "The fall-back to disk only runs when memory is short.",
    [DS],
    [("h5_to_dataset, HarmonicDataset.to_h5", DS), ("HarmonicDataset.pad", DS)],
    "random datasets round-tripped with injected memory errors",
    "Random search; h5py replaced by a stand-in with the same interface.",
)
prop(
    "D04",
    "Splits partition the pieces, reproducibly and alike for all datasets",
    "For every corpus and all split proportions: each complete piece (notes, chords and measures) is in exactly one split, a split's size "
    "is its share of the pieces up to one piece, the ids of a split are those of its pieces in order, the "
    "same seed gives the same splits whatever ran before and whichever datasets are asked for, and every dataset of "
    "a split holds exactly the split's pieces (None for an empty split).",
    ["inputs", "configurations"],
    "all corpora, file ids, proportions, seeds, sets of datasets",
    "A leak between training and test data shows only in an exact accounting over ids.",
    [DS],
    [("get_split_file_ids_and_pieces", DS), ("get_dataset_splits", DS)],
    "random corpora and splits; accounting of ids, pieces and items",
    "Random search; up to 9 pieces and 4 splits.",
)
prop(
    "M01",
    "Model outputs depend neither on batching, padding nor stepping",
    "For every model and weights: the output for an item is the same alone and in any batch in any order, whatever "
    "padding and neighbours it has, and the batch dimension is kept for a batch of one; it has one entry per label of the model's label space "
    "(and step), forming a probability distribution or probabilities. Running a sequence model one step at a time with its "
    "hidden state, starting from init_hidden, gives the outputs of the whole sequence.",
    ["inputs", "configurations"],
    "all networks, weights, pieces, batch compositions",
    "No test runs a network; the beam search steps batched hidden states of many hypotheses and relies on it.",
    [CTM, CCM, CSM, KTM, KSM],
    [("forward of each model", CCM), ("get_output, run_one_step, init_hidden", CSM),
     ("get_output, run_one_step", KTM), ("get_output", KSM), ("get_output", CTM)],
    "random networks and batches; metamorphic (alone = batched = stepped)",
    "Random search; torch replaced by a numpy stand-in with exact packing/LSTM semantics.",
)
prop(
    "M02",
    "Losses and accuracies are taken over exactly the valid targets",
    "For every model and dataset, the training and validation losses and the validation accuracy are the means over exactly the "
    "valid targets of the batch (no padding, ignored or invalid entries, each target paired with the output it "
    "belongs to), and evaluate() gives the means over all valid targets of the dataset, whatever "
    "the batch size.",
    ["inputs", "configurations"],
    "all networks, weights, pieces, batch sizes, transpositions",
    "Wrong masks change the numbers a little, and no test computes a loss.",
    [CTM, CCM, CSM, KTM, KSM],
    [("training_step, validation_step, evaluate", CTM), ("training_step, validation_step, evaluate", CCM),
     ("training_step, validation_step, evaluate", CSM), ("training_step, validation_step, evaluate", KTM),
     ("training_step, validation_step, evaluate", KSM)],
    "random networks and datasets; losses recomputed per target from single-item outputs",
    "Random search; every batch has a valid target.",
)
prop(
    "J01",
    "A beam holds exactly the best states that were added to it",
    "After any sequence of additions, forced additions and emptyings: a beam holds the best states offered to it since it was last "
    "emptied (at most its size, a forced state always enters); a hashed beam holds at most one state per hash, the best one; the "
    "first state is the worst and get_top_state the best one (None when empty); and fits_in_beam says before an "
    "addition whether it would have an effect.",
    ["histories"],
    "all beam sizes, hash lengths, operation sequences",
    "A beam that silently loses a good state degrades every analysis without failing.",
    [BS],
    [("Beam", BS), ("HashedBeam", BS), ("State.get_hash, __lt__", BS)],
    "stateful random testing against a model list",
    "Random search over histories; distinct log-probabilities.",
)
prop(
    "J02",
    "A search state describes exactly the history that led to it",
    "After any history of chord transitions, key transitions, rejoins and copies: get_chords and get_keys give the history's chords, keys and "
    "change indices; get_chord, get_key and the inputs for the CSM, KTM and KSM are those of the same analysis built from "
    "Chord and Key objects; the log-probability is the sum of the parts added, a rejoin taking back exactly the "
    "most recent CSM, KTM and KSM parts and key change; the chord prior added is that of the chord relative to its key "
    "in the CSM's label space (or its pitches), times its length; transitions into chords too far from the key give None; states of equal recent chords and keys "
    "have equal hashes; no operation changes another state.",
    ["histories", "inputs"],
    "all histories, chords, keys, reductions, hash lengths, priors",
    "States share ancestors and cached objects; aliasing or a wrong difference shows only after several steps.",
    [BS],
    [("State.chord_transition, key_transition, rejoin, copy", BS), ("State.add_csm_prior", BS),
     ("State.get_csm_input, get_ktm_input, get_ksm_input", BS), ("State.get_chords, get_keys, get_hash", BS)],
    "stateful random testing against a model of the path",
    "Random search; tonal pitch classes.",
)
prop(
    "J03",
    "The search returns a legal, exactly scored analysis (the best, if beams suffice)",
    "For every piece, networks, thresholds, branching factors, beam size and hash length: the chords and keys found cover the piece from start to "
    "end with strictly increasing changes, at first notes of onsets only, key changes only at chord changes, no change into the same "
    "chord or key, and no chord too far from its key; every step is one that the thresholds, the maximum chord length and the branching "
    "factors allow; the log-probability is the sum of the six models' log-probabilities for this analysis. With a beam that never "
    "overflows, no other allowed analysis has a higher log-probability, and there is a result whenever there is an allowed analysis.",
    ["inputs", "configurations"],
    "all pieces, weights, reductions and inversion options, search parameters",
    "The score and optimality of a search cannot be seen from its output; no test runs the joint model at all.",
    [JM, BS],
    [("HarmonicInferenceModel.beam_search", JM), ("get_chord_ranges", JM),
     ("get_chord_classifications, get_chord_change_probs", JM),
     ("get_key_change_probs, get_key_change_states, run_csm_batched", JM)],
    "random joint models; differential against an exhaustive reference search that scores whole paths",
    "Random search; up to 9 notes; decisions closer than 1e-4 to a threshold are skipped; torch replaced by a "
    "numpy stand-in.",
)
prop(
    "J04",
    "Forced chords, keys and changes are always obeyed; contradictions are refused",
    "For all forced chord and key changes, non-changes, chords and keys given to get_harmony: if they contradict each other or the piece (beyond the end, within an onset, "
    "unknown labels, two labels at once, a change between equal or non-change between different labels, a key change without a "
    "possible chord change), an ArgumentError is raised; otherwise the result has every forced change, none of the excluded ones, and "
    "the forced chord and key wherever one is forced, has the exact score of its path, and is the best such analysis in a wide beam. Changes at the first "
    "note are ignored.",
    ["inputs", "configurations"],
    "all combinations of forces on all pieces and models",
    "Forces interact with the ranges, rejoined ranges, thresholds and initial keys; nothing tests them.",
    [JM],
    [("_validate_and_load_forced_labels, _apply_forced_chord_changes", JM), ("beam_search (forced ids)", JM),
     ("get_chord_ranges (forced ids)", JM), ("get_key_change_states (forced ids)", JM)],
    "random forces; compliance checked on the result, scores and optimality against the reference search",
    "Random search; up to 9 notes; non-changes are not forced at the first note.",
)
prop(
    "J05",
    "The initial chord model is the smoothed distribution of the first chords",
    "For all first chords and every smoothing n: the trained prior of a chord label in a mode is its count among the first chords of "
    "that mode, plus n shared evenly by all labels, as a share of the whole (a probability distribution in major and in minor); "
    "a model loaded from the written json file gives it (as logarithms by default), and one with a reduction or without inversions "
    "gives the sums over the labels that become the same; evaluate() gives the percentage of pieces whose first "
    "chord is the most likely one in its mode, and the mean negative log-likelihood of the first chords.",
    ["inputs"],
    "all multisets of first chords, keys, pitch types and smoothing values",
    "Counts of minor in major, or a wrong smoothing share, give plausible numbers; nothing tests the ICM.",
    [ICM],
    [("train_icm", ICM), ("SimpleInitialChordModel.get_prior, evaluate", ICM)],
    "random chord multisets; reference counts over an independent label space",
    "Random search.",
)
prop(
    "J06",
    "Labels in a score force exactly what they say, where they are",
    "For all labels and lyrics of a MuseScore score: !C, =C, !K and =K give a chord change, chord non-change, key change and key non-change, "
    "C= and K= the label index of the named chord (with its type and inversion) and key, each with its own measure and onset, and "
    "other text gives nothing; score positions are converted to the indexes of the first notes there, in order and with their "
    "labels, and a position where no note starts is refused with a ValueError.",
    ["inputs"],
    "all combinations of labels, texts and positions",
    "A chord read one index off forces another chord; no test reads a force.",
    [FO],
    [("extract_forces_from_musescore", FO), ("convert_score_positions_to_note_indexes", FO)],
    "random label tables and positions; labels built from the music theory model",
    "Random search; label tables in place of ms3's, and real MuseScore files read by ms3.",
)
prop(
    "E01",
    "Accuracies are the exact share of time with the right label",
    "For every annotated piece, estimate, chord reduction, inversion option and tonic-only option: the chord, key and joint accuracies are the "
    "share of the piece's duration in which the estimated chord (after the reduction, with or without inversion) and/or key "
    "(with or without mode) equals the annotated one; the annotation itself is 100% accurate. average_results gives the mean of each "
    "logged value over the log.",
    ["inputs", "configurations"],
    "all pieces, annotations, estimates and options",
    "Published results rest on these numbers; weighting by notes instead of time or an off-by-one range changes them slightly.",
    [EU],
    [("evaluate_chords, evaluate_keys", EU), ("evaluate_chords_and_keys_jointly", EU), ("average_results", EU)],
    "random pieces and estimates; accuracy recomputed per onset on an exact time line",
    "Random search; up to 10 notes; tonal pitch classes.",
)
prop(
    "E02",
    "Label tables say what the analysis says, where it changes",
    "For every piece and estimate: the annotation table has one row per chord and per key of the estimate, with its name, measure and onset where it starts; "
    "the coloured table also has a row wherever the annotation changes (-- if the estimate does not), green if right, yellow if "
    "only the inversion, seventh or mode is wrong and red otherwise; the results table has "
    "consecutive segments with the annotated and estimated labels in the wanted pitch types, their durations adding up to the piece's; the table of the "
    "annotations gives every chord's root, type, inversion, alterations and key in both pitch types (with any offset of C) and their durations.",
    ["inputs", "configurations"],
    "all pieces, annotations (with alterations), estimates and pitch types",
    "These tables are the output of the system; a row one note late looks as plausible as the right one.",
    [EU],
    [("get_annotation_df, get_label_df", EU), ("get_results_df, get_labels_df", EU)],
    "random pieces and estimates; tables rebuilt from an exact time line",
    "Random search; up to 10 notes; tonal pitch classes as input.",
)
prop(
    "E03",
    "Every piece's own results go to its own files; its own forces are used",
    "For every list of pieces: annotate.py and test.py analyse every piece once, in order, and write its own label table (and, if annotated, its results in "
    "both pitch types) to a file of its own name in the output folder, nothing elsewhere, nothing for pieces without a result; the accuracies logged are those of "
    "the annotated pieces with a result; with a forces file, every piece is analysed with exactly the forces given for it, or "
    "else the default ones; verbose output has the estimate and the differing annotation of every segment.",
    ["inputs", "configurations"],
    "all lists of pieces (names, annotated or not, results or none), forces files, output folders",
    "Mixing up pieces of a run needs several pieces with odd names; no test runs a script.",
    ["annotate.py", "test.py", EU],
    [("annotate", "annotate.py"), ("evaluate", "test.py"), ("load_forces_from_json", "test.py"), ("log_state", EU)],
    "random runs with stand-in analyses; files compared with tables rebuilt from the time line",
    "Random search; up to 4 pieces; the joint model is replaced by given results.",
)
prop(
    "E04",
    "Pieces, settings and models are loaded from exactly the files asked for",
    "For every folder of MusicXML files and every aggregated corpus (some pieces with labels): load_pieces gives the pieces asked for (all, the given "
    "ids in their order, one id or one file), each with its own notes, its own labels (none without labels), and its name and "
    "id, the same from pickled pieces; with given ids, MusicXML files are numbered among those with labels; an unknown id is a "
    "ValueError. Enumerations in a settings json are restored and everything else is unchanged. "
    "Every model is loaded, frozen, from the checkpoint of the given path or version by the class that "
    "fits it, the ICM from its json; a missing checkpoint ends the program with an error.",
    ["inputs", "configurations"],
    "all folders, ids, pickled pieces, settings and checkpoint folders",
    "Labels paired with the wrong piece still give a running evaluation.",
    [DU],
    [("load_pieces", DU), ("load_kwargs_from_json", DU), ("load_models_from_argparse", DU)],
    "random folders, corpora, settings and checkpoints written to disk; content compared with single files read alone",
    "Random search; up to 4 pieces; checkpoints of stand-in classes.",
)
prop(
    "E05",
    "The options on the command line are exactly what models, search and outputs use",
    "For all options of annotate.py and test.py: every hyperparameter of the search is the one given (else the documented default, or "
    "with --defaults or --fh-defaults the documented setting for the version of the csm); the models are those of the given "
    "checkpoints and versions; the pieces, ids and forces of the given files are used; results go to the given output and "
    "log, verbosely only if asked for. --average prints the mean of each value in a log. grid_search.py runs exactly one "
    "test.py command per combination of the given hyperparameters, each with its own output.",
    ["inputs", "configurations"],
    "all combinations of options, files and versions",
    "A hyperparameter that is dropped or swapped silently gives other annotations; no test runs the programs.",
    ["annotate.py", "test.py", "grid_search.py", JM],
    [("argument parsing, --defaults, --fh-defaults", "annotate.py"), ("argument parsing, --average", "test.py"),
     ("command generation", "grid_search.py"), ("add_joint_model_args, from_args", JM)],
    "random command lines run as programs on random scores; the joint model's arguments and the files written are compared with the command line",
    "Random search; stand-in checkpoints; up to two pieces.",
)
prop(
    "E06",
    "From the corpus to the evaluation every piece is used by exactly one split",
    "For every corpus (DCML tables or MusicXML files with labels) run through aggregate_corpus_data.py, create_h5_data.py, train.py and "
    "test.py: each annotated piece is in exactly one split, all datasets and pickled pieces of a split hold the same pieces in the "
    "same order; train.py trains the chosen class of model with the given settings and learning rate on the train split, "
    "validated on the valid split, and the initial chord model on the first chords of the train split; test.py evaluates exactly the pieces "
    "of the chosen split.",
    ["inputs", "configurations", "histories"],
    "all corpora, split sizes, seeds, options and models",
    "A piece in both the training and the evaluation data makes every result too good without any failure.",
    ["aggregate_corpus_data.py", "create_h5_data.py", "train.py", "test.py", DS],
    [("splits and pickled pieces", "create_h5_data.py"), ("get_split_file_ids_and_pieces, get_dataset_splits", DS), ("training", "train.py"), ("evaluation of a split", "test.py")],
    "random corpora run through the four programs; contents of the h5 and pickle files compared with datasets of single pieces",
    "Random search; up to 6 pieces; torch, h5py and the trainer are stand-ins.",
)
prop(
    "E07",
    "Labels are written onto their own piece's score, where they belong",
    "For every folder of outputs and MuseScore scores: write_to_score.py writes each label of a piece's output, with its colour, into a "
    "copy of that piece's score at the label's measure and onset and nothing else, leaves all notes as they are, writes no score "
    "for pieces without output, and leaves the corpus untouched.",
    ["inputs"],
    "all scores, label tables, folder and file names",
    "Labels in the neighbouring piece's score look plausible; no test writes a score.",
    [EU, "write_to_score.py"],
    [("write_labels_to_score", EU), ("write_tsvs_to_scores", "write_to_score.py")],
    "random scores and label tables written by the real ms3 and read back by an independent reader",
    "Random search; up to three scores of two staves.",
)

From b6452ea1f14072a913179b0e2c00328d953f55a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:30 +0000
Subject: [PATCH 01/67] fix: an added-only (+) alteration shifts the removals
 of all later alterations

---
 harmonic_inference/utils/harmonic_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index 770bd5e..2901c7d 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -227,6 +227,7 @@ def get_added_and_removed_pitches(
         if change[0] == "+":
             # Added pitch only - no deletion
             removed_pitches.append("")
+            continue
 
         _, new_change = get_accidental_adjustment(change, in_front=True)
 
-- 
2.43.0


From 74380dc03c75996cf3a066cd7b8f14480d14f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:07 +0000
Subject: [PATCH 02/67] fix: the MIDI note number of a MIDI-pitched note uses
 35 instead of 12 pitches per octave

---
 harmonic_inference/data/note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index d1c8402..36524cc 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -125,7 +125,7 @@ class Note:
             The MIDI note number of this Note's pitch.
         """
         if self.pitch_type == PitchType.MIDI:
-            return NUM_PITCHES[PitchType.TPC] * self.octave + self.pitch_class
+            return NUM_PITCHES[PitchType.MIDI] * self.octave + self.pitch_class
 
         midi_pitch_class = get_pitch_from_string(
             get_pitch_string(self.pitch_class, self.pitch_type), PitchType.MIDI
-- 
2.43.0


From 1dcad2c68a48426b94b7d9b2e67e166ef93dd9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:07 +0000
Subject: [PATCH 03/67] fix: offset position of MusicXML notes in and after
 incomplete measures

---
 harmonic_inference/data/note.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index 36524cc..686a326 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -473,7 +473,7 @@ class Note:
 
         # Find the offset measure
         offset_measure = onset_measure
-        tmp_duration = note_duration + note_start - onset_measure[MEASURE_OFFSET]
+        tmp_duration = note_duration + note_start
         while tmp_duration >= offset_measure["act_dur"] and not pd.isna(offset_measure["next"]):
             tmp_duration -= offset_measure["act_dur"]
             offset_measure = measures_df.loc[measures_df["mc"] == offset_measure["next"]].iloc[0]
@@ -482,7 +482,6 @@ class Note:
         offset_beat = tmp_duration + offset_measure[MEASURE_OFFSET]
 
         onset_beat += onset_measure[MEASURE_OFFSET]
-        offset_beat += offset_measure[MEASURE_OFFSET]
 
         levels = [None, None]
 
-- 
2.43.0


From 53885d7008a27f94153d84870e2d57e24ba2fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:07 +0000
Subject: [PATCH 04/67] fix: octave of MusicXML notes disagrees with that of
 corpus notes (and with their pitch class for Cb, B#)

---
 harmonic_inference/data/note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index 686a326..88a98f5 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -508,7 +508,7 @@ class Note:
 
         return Note(
             get_pitch_from_string(m21_note.pitch.name.replace("-", "b"), pitch_type),
-            m21_note.octave,
+            m21_note.pitch.midi // NUM_PITCHES[PitchType.MIDI],
             (onset_measure["mc"], onset_beat),
             onset_level,
             note_duration,
-- 
2.43.0


From eed8479a92dce28db5fb19270ec71b3ed2a872e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:07 +0000
Subject: [PATCH 05/67] fix: reduce_chord_types erases the chord types that the
 reduction keeps

---
 harmonic_inference/data/vector_decoding.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index ca2ad2f..6006036 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -445,9 +445,6 @@ def reduce_chord_types(
     new_chord_type_vectors = np.zeros_like(chord_type_vectors)
 
     for from_type, to_type in reduction.items():
-        if from_type == to_type:
-            continue
-
         from_index = from_type.value
         to_index = to_type.value
 
-- 
2.43.0


From fa143fa68391de8e5b78741bc8a99131d80888ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:13 +0000
Subject: [PATCH 06/67] fix: transposing a note vector out of the pitch range
 moves it into another field instead of failing (or wrapping for MIDI)

---
 harmonic_inference/data/vector_decoding.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 6006036..5566663 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -20,6 +20,7 @@ from harmonic_inference.utils.harmonic_utils import (
     get_chord_from_one_hot_index,
     get_chord_one_hot_index,
     get_pitch_string,
+    transpose_pitch,
 )
 
 
@@ -557,13 +558,7 @@ def transpose_note_vector(
     new_note_vector = copy(note_vector)
 
     old_pitch = np.arange(NUM_PITCHES[pitch_type])[np.where(note_vector == 1)[0][0]]
-    new_pitch = old_pitch + interval
-
-    if not (0 <= old_pitch < NUM_PITCHES[pitch_type]):
-        raise ValueError(
-            f"Transposed note {decode_note_vector(note_vector)} + {interval} "
-            f"outside of valid range (0 - {NUM_PITCHES[pitch_type]}"
-        )
+    new_pitch = transpose_pitch(old_pitch, interval, pitch_type)
 
     new_note_vector[old_pitch] = 0
     new_note_vector[new_pitch] = 1
-- 
2.43.0


From 01e01eee4f93a080bfdd6325241230bf4e770e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:38 +0000
Subject: [PATCH 07/67] fix: pitch type of chord + key change vectors is not
 found, so reductions crash in the sequence datasets

---
 harmonic_inference/data/vector_decoding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 5566663..05bff8e 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -224,7 +224,10 @@ def infer_chord_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
         If no known PitchType results in the given vector length.
     """
     for pitch_type in PitchType:
-        if vector_length == get_chord_vector_length(pitch_type, one_hot=False, pad=pad):
+        chord_length = get_chord_vector_length(pitch_type, one_hot=False, pad=pad)
+        key_change_length = get_key_change_vector_length(pitch_type, one_hot=False)
+        # The chord vector can be followed by a key change vector and a binary is_key_change
+        if vector_length in [chord_length, chord_length + key_change_length + 1]:
             return pitch_type
 
     raise ValueError(f"Could not find valid pitch type for vector length {vector_length}.")
-- 
2.43.0


From b333d28a02b429af6f04ce87e20ed3e588a5c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:38 +0000
Subject: [PATCH 08/67] fix: decode_note_vector fails for every note vector

---
 harmonic_inference/data/vector_decoding.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 05bff8e..8241b19 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -64,17 +64,21 @@ def decode_note_vector(note_vector: np.array) -> Note:
     offset_level = np.where(offset_level_vector == 1)[0][0]
 
     current_idx += 4
-    mc, onset, dur, dur_from_prev, dur_to_next = note_vector[current_idx : current_idx + 3]
-    is_min = note_vector[-1] == 1
+    onset, offset, dur, dur_from_prev, dur_to_next = note_vector[current_idx : current_idx + 5]
+
+    current_idx += 5
+    is_min = note_vector[current_idx] == 1
 
     print(f"Pitch: {get_pitch_string(pitch, pitch_type)}, octave {octave}")
     print(f"Onset level: {onset_level}")
     print(f"Offset level: {offset_level}")
-    print(f"Onset position: ({mc}, {onset})")
+    print(f"Onset and offset (relative to chord): {onset}, {offset}")
     print(f"Duration: {dur} (from prev: {dur_from_prev}, to_next: {dur_to_next}")
-    print(f"Is{' not ' if is_min else ' '}lowest pitch")
+    print(f"Is{' ' if is_min else ' not '}lowest pitch")
 
-    return Note(pitch, octave, onset, onset_level, dur, None, offset_level, pitch_type)
+    return Note(
+        pitch, octave, onset, onset_level, dur, offset, offset_level, pitch_type, mc_onset=onset
+    )
 
 
 def decode_key_change_vector(key_change_vector: np.array) -> Key:
-- 
2.43.0


From c97b6e0d9758c6ce2fa8dec4d0bd8113cbee6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:38 +0000
Subject: [PATCH 09/67] fix: decode_key_change_vector returns an array as the
 key's mode

---
 harmonic_inference/data/vector_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 8241b19..000d470 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -110,7 +110,7 @@ def decode_key_change_vector(key_change_vector: np.array) -> Key:
         relative_tonic += MIN_KEY_CHANGE_INTERVAL_TPC
 
     # Absolute mode of next key
-    key_mode = np.array(KeyMode)[key_change_vector[-2:] == 1]
+    key_mode = np.array(KeyMode)[key_change_vector[-2:] == 1][0]
 
     print(f"Relative tonic: {relative_tonic}, Mode: {key_mode}")
 
-- 
2.43.0


From 1044d9f703be77722cfddc9dea2f35aaf1940e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:38 +0000
Subject: [PATCH 10/67] fix: reading an item of a key dataset overwrites the
 dataset's own inputs

---
 harmonic_inference/data/datasets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index e9d8284..2cf5acb 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -840,10 +840,10 @@ class KeyHarmonicDataset(HarmonicDataset):
             key_change_replacement = self.key_change_replacements[item]
             target = self.targets[item]
 
-            if len(piece_input) < self.max_input_length:
-                padded_input = np.zeros((self.max_input_length + 1, piece_input.shape[1]))
-                padded_input[: len(piece_input)] = piece_input
-                piece_input = padded_input
+            # Always copy, since the key change replacement is written into piece_input below
+            padded_input = np.zeros((self.max_input_length + 1, piece_input.shape[1]))
+            padded_input[: len(piece_input)] = piece_input[: len(padded_input)]
+            piece_input = padded_input
 
         # Create target list (if KTD)
         if isinstance(self, KeyTransitionDataset):
-- 
2.43.0


From 9375268f8a38f27d48786625545667b732721d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:54 +0000
Subject: [PATCH 11/67] fix: loading a key dataset from h5 truncates pieces to
 the length of unrelated key segments

---
 harmonic_inference/data/datasets.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 2cf5acb..a55eeca 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1111,6 +1111,12 @@ def h5_to_dataset(
             for data in ["input", "target"]:
                 if f"{data}_lengths" in h5_file:
                     lengths = np.array(h5_file[f"{data}_lengths"])
+                    setattr(dataset, f"{data}_lengths", lengths)
+
+                    if issubclass(dataset_class, KeyHarmonicDataset):
+                        # Here, lengths is per key (rather than per piece, as the inputs are)
+                        lengths = np.full(*h5_file[f"{data}s"].shape[:2])
+
                     data_list = []
 
                     for chunk_start in tqdm(
@@ -1126,7 +1132,6 @@ def h5_to_dataset(
                             ]
                         )
 
-                    setattr(dataset, f"{data}_lengths", lengths)
                     setattr(dataset, f"{data}s", data_list)
 
                 else:
-- 
2.43.0


From 8156e4807a5688b7f2528f28c534aee1970c98bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:54 +0000
Subject: [PATCH 12/67] fix: datasets read from disk (not fitting into RAM)
 lack their pitch type and piece lengths

---
 harmonic_inference/data/datasets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index a55eeca..7dba375 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1107,6 +1107,11 @@ def h5_to_dataset(
         dataset.in_ram = False
         chunk_size = dataset.chunk_size
 
+        # These are needed even if the data is not loaded into RAM
+        for key in ["piece_lengths", "key_change_replacements", "target_pitch_type"]:
+            if key in h5_file:
+                setattr(dataset, key, np.array(h5_file[key]))
+
         try:
             for data in ["input", "target"]:
                 if f"{data}_lengths" in h5_file:
@@ -1137,10 +1142,6 @@ def h5_to_dataset(
                 else:
                     setattr(dataset, f"{data}s", np.array(h5_file[f"{data}s"], dtype=np.float16))
 
-            for key in ["piece_lengths", "key_change_replacements", "target_pitch_type"]:
-                if key in h5_file:
-                    setattr(dataset, key, np.array(h5_file[key]))
-
             dataset.in_ram = True
 
         except MemoryError:
-- 
2.43.0


From 231f49380bf22a36d05a99ff199030a9aff35805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:21 +0000
Subject: [PATCH 13/67] fix: reduced chords of labels csv files keep the
 inversion and bass of the unreduced chord

---
 harmonic_inference/data/chord.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/data/chord.py b/harmonic_inference/data/chord.py
index 5164800..fcd4b85 100644
--- a/harmonic_inference/data/chord.py
+++ b/harmonic_inference/data/chord.py
@@ -643,6 +643,7 @@ class Chord:
                 "It+6": ChordType.MAJOR,
                 "h7": ChordType.HALF_DIM7,
             }[chord_row["type"]]
+            chord_type = reduction[chord_type]
 
             # Harmonic info (root pitch)
             degree = chord_row["degree"].replace("-", "b")
@@ -668,7 +669,7 @@ class Chord:
             root = transpose_pitch(key.relative_tonic, interval, pitch_type=pitch_type)
 
             # How we handle augmented 6th chords
-            inversion = chord_row["inv"]
+            inversion = chord_row["inv"] if use_inversion else 0
             if chord_row["type"] in ["Gr+6", "Fr+6", "It+6"]:
                 inversion = 0
 
@@ -712,8 +713,8 @@ class Chord:
                 get_bass_note(chord_type, root, inversion, pitch_type, modulo=True),
                 key.relative_tonic if use_relative else key.local_tonic,
                 key.relative_mode if use_relative else key.local_mode,
-                reduction[chord_type],
-                inversion if use_inversion else 0,
+                chord_type,
+                inversion,
                 (onset_measure["mc"], onset_beat),
                 onset_level,
                 (offset_measure["mc"], offset_beat),
-- 
2.43.0


From ec757e599fdd575b3336602df824937559569ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:19 +0000
Subject: [PATCH 14/67] fix: MIDI black keys cannot be converted to a tonal
 pitch class

---
 harmonic_inference/utils/harmonic_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index 2901c7d..fd90cc2 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -1022,7 +1022,7 @@ def get_pitch_from_string(pitch_string: str, pitch_type: PitchType) -> int:
     pitch : int
         An integer representing the given pitch string as the given type.
     """
-    if pitch_type == PitchType.MIDI and "/" in pitch_string:
+    if "/" in pitch_string:
         pitch_string = pitch_string.split("/")[0]
 
     accidental_adjustment, pitch_string = get_accidental_adjustment(pitch_string, in_front=False)
-- 
2.43.0


From f3ca5f2fe32b1c3e3797fdd2688680c474843097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:30 +0000
Subject: [PATCH 15/67] fix: a corpus of a single piece loses all of its
 measures and the end of its last chord

---
 harmonic_inference/utils/corpus_utils.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/harmonic_inference/utils/corpus_utils.py b/harmonic_inference/utils/corpus_utils.py
index ca41395..c9f6acc 100755
--- a/harmonic_inference/utils/corpus_utils.py
+++ b/harmonic_inference/utils/corpus_utils.py
@@ -4,7 +4,6 @@ import warnings
 from fractions import Fraction
 from typing import List, Tuple
 
-import numpy as np
 import pandas as pd
 
 from harmonic_inference.data.corpus_constants import (
@@ -71,9 +70,7 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
 
     # Find potential last measures of each piece
     last_measures = (next_lengths == 0) | [-1 in n for n in measures["next"]]  # Default case
-    last_measures |= np.roll(
-        measures.index.get_level_values("file_id").to_numpy(), -1
-    ) != measures.index.get_level_values("file_id")
+    last_measures |= ~measures.index.get_level_values("file_id").duplicated(keep="last")
 
     next_lengths[last_measures] = 0
 
@@ -94,9 +91,7 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
     # Remove measures which are unreachable
     if remove_unreachable:
         # Start measures will not be in any next list, but they need to be saved as a special case
-        start_measures = np.roll(
-            measures.index.get_level_values("file_id").to_numpy(), 1
-        ) != measures.index.get_level_values("file_id")
+        start_measures = ~measures.index.get_level_values("file_id").duplicated(keep="first")
         start_indices = list(measures.index.to_numpy()[start_measures])
 
         # Save to reset type later. Needs to be nullable for the merge to work
@@ -179,10 +174,7 @@ def add_chord_metrical_data(chords: pd.DataFrame, measures: pd.DataFrame) -> pd.
     chords.loc[:, f"{CHORD_ONSET_BEAT}_next"] = chords[CHORD_ONSET_BEAT].shift(-1)
 
     # For the last chord of each piece, it is more complicated
-    last_chords = chords.loc[
-        chords.index.get_level_values("file_id")
-        != np.roll(chords.index.get_level_values("file_id"), -1)
-    ]
+    last_chords = chords.loc[~chords.index.get_level_values("file_id").duplicated(keep="last")]
     last_measures = measures.loc[measures.next.isnull()]
     last_merged = pd.merge(
         last_chords.reset_index(),
-- 
2.43.0


From c84c9e2786d1eeb911f1678e75ecae4279c13b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:08 +0000
Subject: [PATCH 16/67] fix: a tie that has reached its end is continued into
 the next note that is tied into

---
 harmonic_inference/utils/corpus_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/corpus_utils.py b/harmonic_inference/utils/corpus_utils.py
index c9f6acc..61084ab 100755
--- a/harmonic_inference/utils/corpus_utils.py
+++ b/harmonic_inference/utils/corpus_utils.py
@@ -648,7 +648,7 @@ def merge_ties(notes: pd.DataFrame) -> pd.DataFrame:
         """
         update_tied_out_notes(tied_out_notes, new_tied_out_values_df)
         tied_out_notes = remove_finished(
-            tied_out_notes, tied_out_notes["tied"].isnull(), finished_notes_dfs
+            tied_out_notes, ~tied_out_notes["tied"].isin([0, 1]), finished_notes_dfs
         )
         tied_in_notes = tied_in_notes.drop(tied_in_drop_indexes)
 
-- 
2.43.0


From b9fbe6d2ad2a576463bf822fbb0c2c405e5d2046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:54 +0000
Subject: [PATCH 17/67] fix: loading the first pieces of a corpus fails if one
 of them has no annotations

---
 harmonic_inference/data/corpus_reading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/corpus_reading.py b/harmonic_inference/data/corpus_reading.py
index b9de122..722e806 100755
--- a/harmonic_inference/data/corpus_reading.py
+++ b/harmonic_inference/data/corpus_reading.py
@@ -104,7 +104,7 @@ def load_clean_corpus_dfs(dir_path: Union[str, Path], count: int = None):
         measures_df = measures_df.loc[files_df.index]
         notes_df = notes_df.loc[files_df.index]
         if chords_df is not None:
-            chords_df = chords_df.loc[files_df.index]
+            chords_df = chords_df.loc[chords_df.index.get_level_values(0).isin(files_df.index)]
 
     # Bugfix for Couperin piece "next" error
     files_df = files_df.loc[~(files_df["file_name"] == "c11n08_Rondeau.tsv")]
-- 
2.43.0


From 5ebc740634857b4e33b2aa829ba5550da07aeac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:08 +0000
Subject: [PATCH 18/67] fix: inputs before the first chord are said to have the
 piece's last chord

---
 harmonic_inference/data/piece.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 1ec1f9a..dfec1d9 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -280,7 +280,8 @@ class Piece:
         start_index = bisect.bisect_left(chord_change_indices, start)
         if start_index == len(chord_change_indices) or chord_change_indices[start_index] != start:
             # Subtract 1 to get end of partial chord if exact match is not found
-            start_index -= 1
+            # (and nothing is sounding before the first chord)
+            start_index = max(start_index - 1, 0)
 
         if stop is None:
             return chords[start_index:]
-- 
2.43.0


From 2c7bf0c69f203f42d131cb7cf87455fd2cfa098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:08 +0000
Subject: [PATCH 19/67] fix: pieces with a single note or a single chord cannot
 be read

---
 harmonic_inference/data/piece.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index dfec1d9..ba5aa90 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -636,8 +636,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     notes, note_ilocs = np.hsplit(notes_list, 2)
-    notes = np.squeeze(notes)
-    note_ilocs = np.squeeze(note_ilocs).astype(int)
+    notes = np.squeeze(notes, axis=1)
+    note_ilocs = np.squeeze(note_ilocs, axis=1).astype(int)
 
     if chords_df is None:
         # Quick check for pieces without ground truth chords
@@ -671,8 +671,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     chords_list, chord_ilocs = np.hsplit(chords_list, 2)
-    chords_list = np.squeeze(chords_list)
-    chord_ilocs = np.squeeze(chord_ilocs).astype(int)
+    chords_list = np.squeeze(chords_list, axis=1)
+    chord_ilocs = np.squeeze(chord_ilocs, axis=1).astype(int)
 
     # Remove accidentally repeated chords
     non_repeated_mask = get_reduction_mask(
-- 
2.43.0


From 09c896721cfc088e159177c4aaca2dda86601841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:09 +0000
Subject: [PATCH 20/67] fix: ties of MusicXML scores are merged with notes of
 other parts

---
 harmonic_inference/data/piece.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index ba5aa90..5096391 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -869,8 +869,9 @@ def get_notes_from_music_xml(
     notes : List[Note]
         A List of the Notes present in the given music21 score.
     """
-    m21_score = m21_score.flattenParts()
+    # Ties can only be stripped part by part: they are matched between successive notes
     m21_score = m21_score.stripTies()
+    m21_score = m21_score.flattenParts()
 
     levels_cache = defaultdict(dict)
     notes = []
-- 
2.43.0


From e8b5eba0d11bc102278f94d2f474d24c96c9f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:34 +0000
Subject: [PATCH 21/67] fix: time signatures that change in a first ending of a
 MusicXML score are ignored

---
 harmonic_inference/data/piece.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 5096391..61cb9be 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -796,15 +796,6 @@ def get_measures_df_from_music21_score(m21_score: music21.stream.Score) -> pd.Da
         offset = Fraction(offset) / 4 - skipped_dur
         measure = measures_list[0]
 
-        skip = False
-        for start, end in first_endings:
-            if measure.measureNumber in range(start, end + 1):
-                skip = True
-                break
-        if skip:
-            skipped_dur += Fraction(measure.duration.quarterLength) / 4
-            continue
-
         if measure.timeSignature is not None:
             if measure.timeSignature.ratioString != time_signature:
                 # Time Signature change
@@ -815,6 +806,15 @@ def get_measures_df_from_music21_score(m21_score: music21.stream.Score) -> pd.Da
                 if mc != 0:
                     ts_epoch = offset
 
+        skip = False
+        for start, end in first_endings:
+            if measure.measureNumber in range(start, end + 1):
+                skip = True
+                break
+        if skip:
+            skipped_dur += Fraction(measure.duration.quarterLength) / 4
+            continue
+
         if lengths:
             # Set the length of each bar to the difference between consecutive measure offsets
             lengths[-1] = offset - starts[-1]
-- 
2.43.0


From bfd8f206b8e35dac02f349d5bd8dc30122b779d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:14 +0000
Subject: [PATCH 22/67] fix: the last key change of a key sequence dataset read
 from disk cannot be accessed

---
 harmonic_inference/data/datasets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 7dba375..a61de85 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -826,6 +826,8 @@ class KeyHarmonicDataset(HarmonicDataset):
             assert self.h5_path is not None, "Data must be either in ram or in an h5_file."
             with h5py.File(self.h5_path, "r") as h5_file:
                 piece_input = h5_file["inputs"][piece_idx]
+                # The key change replacement can lie directly after the last stored input
+                piece_input = np.vstack((piece_input, np.zeros_like(piece_input[:1])))
                 input_length = h5_file["input_lengths"][item]
                 start_index = h5_file["input_lengths"][item - 1] if prev_in_piece else 0
                 key_change_replacement = h5_file["key_change_replacements"][item]
-- 
2.43.0


From 3899cfe53250b486bd6da178a0ddb044915ceb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:04 +0000
Subject: [PATCH 23/67] fix: the chord classifier fails for batches of a single
 chord

---
 harmonic_inference/models/chord_classifier_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/chord_classifier_models.py b/harmonic_inference/models/chord_classifier_models.py
index e9b4f78..a2c611f 100755
--- a/harmonic_inference/models/chord_classifier_models.py
+++ b/harmonic_inference/models/chord_classifier_models.py
@@ -308,7 +308,7 @@ class SimpleChordClassifier(ChordClassifierModel):
         lstm_out_lengths_tensor = (
             lstm_out_lengths.unsqueeze(1).unsqueeze(2).expand((-1, 1, lstm_out_forward.shape[2]))
         ).to(self.device)
-        last_forward = torch.gather(lstm_out_forward, 1, lstm_out_lengths_tensor - 1).squeeze()
+        last_forward = torch.gather(lstm_out_forward, 1, lstm_out_lengths_tensor - 1).squeeze(1)
         last_backward = lstm_out_backward[:, 0, :]
         lstm_out = torch.cat((last_forward, last_backward), 1)
 
-- 
2.43.0


From e0df1e472a3a17e9ecaf1d6bf31f5a3e51d1e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 24/67] fix: evaluation of the key sequence model weights every
 batch equally, whatever its size

---
 harmonic_inference/models/key_sequence_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/key_sequence_models.py b/harmonic_inference/models/key_sequence_models.py
index 11f8871..3293c8e 100755
--- a/harmonic_inference/models/key_sequence_models.py
+++ b/harmonic_inference/models/key_sequence_models.py
@@ -128,7 +128,7 @@ class KeySequenceModel(pl.LightningModule, ABC):
 
             outputs, _ = self(inputs, input_lengths)
 
-            batch_count = len(batch)
+            batch_count = len(targets)
             loss = F.nll_loss(outputs, targets)
             acc = 100 * (outputs.argmax(-1) == targets).sum().float() / len(targets)
 
-- 
2.43.0


From 681e78aaef8d9ceaf6dd3d634b40d76a9cb91baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 25/67] fix: evaluating a chord classifier fails on chords
 transposed out of the pitch range

---
 harmonic_inference/models/chord_classifier_models.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/chord_classifier_models.py b/harmonic_inference/models/chord_classifier_models.py
index a2c611f..f2fe3f4 100755
--- a/harmonic_inference/models/chord_classifier_models.py
+++ b/harmonic_inference/models/chord_classifier_models.py
@@ -133,8 +133,16 @@ class ChordClassifierModel(pl.LightningModule, ABC):
             notes_lengths = batch["input_lengths"]
             targets = batch["targets"].long()
 
-            batch_count = len(targets)
             outputs = self(notes, notes_lengths)
+
+            mask = targets != -1
+            outputs = outputs[mask]
+            targets = targets[mask]
+
+            batch_count = len(targets)
+            if batch_count == 0:
+                continue
+
             loss = F.cross_entropy(outputs, targets)
             acc = 100 * (outputs.argmax(-1) == targets).sum().float() / len(targets)
 
-- 
2.43.0


From 4de878995b13652538f30620968443b1b77b9d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 26/67] fix: the pitch-based chord sequence model ignores
 targets with the lowest pitch and cannot be evaluated

---
 harmonic_inference/models/chord_sequence_models.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/models/chord_sequence_models.py b/harmonic_inference/models/chord_sequence_models.py
index 21a9b93..a521e4b 100755
--- a/harmonic_inference/models/chord_sequence_models.py
+++ b/harmonic_inference/models/chord_sequence_models.py
@@ -481,7 +481,7 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
 
         flat_outputs = outputs.view(-1, outputs.shape[-1])
         flat_targets = targets.view(-1, targets.shape[-1])
-        flat_mask = flat_targets[:, 0] == 0
+        flat_mask = flat_targets[:, 0] != -100
 
         flat_outputs = flat_outputs[flat_mask]
         flat_targets = flat_targets[flat_mask]
@@ -498,7 +498,7 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
 
         flat_outputs = outputs.view(-1, outputs.shape[-1])
         flat_targets = targets.view(-1, targets.shape[-1])
-        flat_mask = flat_targets[:, 0] == 0
+        flat_mask = flat_targets[:, 0] != -100
 
         flat_outputs = flat_outputs[flat_mask]
         flat_targets = flat_targets[flat_mask]
@@ -527,13 +527,13 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
 
             flat_outputs = outputs.view(-1, outputs.shape[-1])
             flat_targets = targets.view(-1, targets.shape[-1])
-            flat_mask = flat_targets[:, 0] == 0
-            batch_count = len(flat_mask.view(-1))
+            flat_mask = flat_targets[:, 0] != -100
 
             flat_outputs = flat_outputs[flat_mask]
             flat_targets = flat_targets[flat_mask]
+            batch_count = len(flat_targets)
 
-            loss = F.binary_cross_entropy(flat_outputs, flat_targets.float(), reduction="none")
+            loss = F.binary_cross_entropy(flat_outputs, flat_targets.float())
 
             acc = (
                 100
-- 
2.43.0


From b63323b65f9c2fc3a157a9ce40ed0764945df9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:40 +0000
Subject: [PATCH 27/67] fix: an emptied HashedBeam can be added to again

---
 harmonic_inference/utils/beam_search_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index d91cc34..6a1d4fd 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -1095,7 +1095,7 @@ class HashedBeam(Beam):
         Empty this beam.
         """
         self.beam = []
-        self.state_dict = []
+        self.state_dict = {}
 
     def __iter__(self) -> Iterator[State]:
         return self.state_dict.values().__iter__()
-- 
2.43.0


From 219f2e51165cb3ea13d128352ad7792a2ffdbc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 28/67] fix: State.copy keeps the most recent model
 log-probabilities

---
 harmonic_inference/utils/beam_search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 6a1d4fd..5c1d9f6 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -158,6 +158,9 @@ class State:
             csm_log_prior=self.csm_log_prior,
             key_obj=self.key_obj,
             must_key_transition=self._must_key_transition,
+            most_recent_csm=self.most_recent_csm,
+            most_recent_ksm=self.most_recent_ksm,
+            most_recent_ktm=self.most_recent_ktm,
         )
 
     def chord_transition(
-- 
2.43.0


From ad5ab710e413a625dcb1156a0cab7709b429b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:17 +0000
Subject: [PATCH 29/67] fix: pitch-based CSM priors are indexed from the lowest
 relative pitch, as in training

---
 harmonic_inference/utils/beam_search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 5c1d9f6..55cd308 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -476,6 +476,9 @@ class State:
                 reduction=output_reduction,
             )
 
+            if pitch_type == PitchType.TPC:
+                relative_root -= hc.MIN_RELATIVE_TPC
+
             chord_vector = hu.get_vector_from_chord_type(
                 chord_type,
                 pitch_type,
-- 
2.43.0


From 990da5edd0d36e91f8cfad7401865cabfb3665be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 30/67] fix: the search misreads the chords of a chord
 classifier without inversions or with a reduction

---
 harmonic_inference/models/joint_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index d283949..d433645 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -269,7 +269,12 @@ class HarmonicInferenceModel:
 
         # Load labels
         self.LABELS = {
-            "chord": hu.get_chord_from_one_hot_index(slice(None, None), self.CHORD_OUTPUT_TYPE),
+            "chord": hu.get_chord_from_one_hot_index(
+                slice(None, None),
+                self.CHORD_OUTPUT_TYPE,
+                use_inversions=self.chord_classifier.use_inversions,
+                reduction=self.chord_classifier.reduction,
+            ),
             "key": hu.get_key_from_one_hot_index(slice(None, None), self.KEY_OUTPUT_TYPE),
             "relative_key": list(
                 itertools.product(
-- 
2.43.0


From 7489fca48a9962e3f2a75a15078a4d8c3606d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 31/67] fix: the probability of not changing key is counted for
 the states that do

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index d433645..8b091ae 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1069,7 +1069,7 @@ class HarmonicInferenceModel:
                         to_ksm_states.append(change_state)
 
                 if can_not_change:
-                    change_state.add_ktm_log_prob(no_change_log_prob * range_length)
+                    state.add_ktm_log_prob(no_change_log_prob * range_length)
                     if current_start == 0 or all_states[state.change_index].fits_in_beam(
                         state, check_hash=True
                     ):
-- 
2.43.0


From f84f62eb516094aebb93c1fc1c5016634cb80622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 32/67] fix: the search drops ranges that would fit into a beam
 that is not full

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 8b091ae..15a54c1 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -972,7 +972,7 @@ class HarmonicInferenceModel:
 
                 if (
                     current_start != 0
-                    and len(all_states[range_end]) > 0
+                    and len(all_states[range_end]) >= self.beam_size
                     and all_states[range_end].beam[0].log_prob >= state.log_prob + range_log_prob
                 ):
                     # Quick exit if range will never get into resulting beam
-- 
2.43.0


From a260fe37f6f9afb7cf773235da2d8c757b78a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 33/67] fix: the first note's duration counts twice towards the
 maximum length of the first chord

---
 harmonic_inference/models/joint_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 15a54c1..18f6674 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -719,8 +719,7 @@ class HarmonicInferenceModel:
             start = heapq.heappop(starts)
 
             running_log_prob = 0.0
-            # Special case for start == 0 because it is always invalid, but can have duration > 0
-            running_duration = self.duration_cache[start] if start == 0 else Fraction(0)
+            running_duration = Fraction(0)
             reached_end = True
             forced_chords = set()
             forced_keys = set()
-- 
2.43.0


From 236d935d80a6cdbebb62b89dcb30b35142ce7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 34/67] fix: only one branch is searched if the target
 probability mass is never reached

---
 harmonic_inference/models/joint_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 18f6674..0844fd9 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -872,12 +872,12 @@ class HarmonicInferenceModel:
         priors = np.exp(chord_classifications)
         priors_argsort = np.argsort(-priors)  # Negative to sort descending
         max_indexes = np.clip(
-            np.argmax(
+            np.sum(
                 np.cumsum(
                     np.take_along_axis(priors, priors_argsort, -1),
                     axis=-1,
                 )
-                >= self.target_chord_branch_prob,
+                < self.target_chord_branch_prob,
                 axis=-1,
             )
             + 1,
@@ -1251,12 +1251,12 @@ class HarmonicInferenceModel:
         key_log_priors = np.array(key_log_priors)
         priors_argsort = np.argsort(-key_log_priors)  # Negative to sort descending
         max_indexes = np.clip(
-            np.argmax(
+            np.sum(
                 np.cumsum(
                     np.take_along_axis(np.exp(key_log_priors), priors_argsort, -1),
                     axis=-1,
                 )
-                >= self.target_key_branch_prob,
+                < self.target_key_branch_prob,
                 axis=-1,
             )
             + 1,
-- 
2.43.0


From ef8e43a92ac68f8803b7e2909048d544c64690c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:41 +0000
Subject: [PATCH 35/67] fix: the search ignores the chord reductions of the
 sequence models' inputs

---
 harmonic_inference/data/datasets.py      |  3 +++
 harmonic_inference/models/joint_model.py | 12 ++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index a61de85..6670095 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -690,6 +690,9 @@ class ChordSequenceDataset(HarmonicDataset):
         if not self.use_inversions_input:
             remove_chord_inversions(data["inputs"], pad=False)
 
+        if "targets" not in data:
+            return
+
         data["targets"] = reduce_chord_one_hots(
             data["targets"],
             False,
diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 0844fd9..1941e35 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1145,7 +1145,9 @@ class HarmonicInferenceModel:
             )
 
         # Generate KTM loader
-        reduce = ds.KeyTransitionDataset([], self.key_transition_model.get_dataset_kwargs()).reduce
+        reduce = ds.KeyTransitionDataset(
+            [], **self.key_transition_model.get_dataset_kwargs()
+        ).reduce
         ktm_dataset = ds.HarmonicDataset()
         ktm_dataset.inputs = ktm_inputs
         ktm_dataset.set_hidden_states(ktm_hidden_states)
@@ -1218,7 +1220,9 @@ class HarmonicInferenceModel:
             )
 
         # Generate KSM loader
-        reduce = ds.KeySequenceDataset([], self.key_sequence_model.get_dataset_kwargs()).reduce
+        reduce = ds.KeySequenceDataset(
+            [], **self.key_sequence_model.get_dataset_kwargs()
+        ).reduce
         ksm_dataset = ds.HarmonicDataset([])
         ksm_dataset.inputs = ksm_inputs
         ksm_dataset.set_hidden_states(ksm_hidden_states)
@@ -1352,8 +1356,8 @@ class HarmonicInferenceModel:
             )
 
         # Generate CSM loader
-        reduce = ds.ChordTransitionDataset(
-            [], self.key_transition_model.get_dataset_kwargs()
+        reduce = ds.ChordSequenceDataset(
+            [], **self.chord_sequence_model.get_dataset_kwargs()
         ).reduce
         csm_dataset = ds.HarmonicDataset([])
         csm_dataset.inputs = csm_inputs
-- 
2.43.0


From 462bdd67fa8ad879059fc5b3542e2843e54f4a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:41 +0000
Subject: [PATCH 36/67] fix: the last chord may contain the last note although
 another chord or key is forced there

---
 harmonic_inference/models/joint_model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 1941e35..14eec45 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -743,9 +743,6 @@ class HarmonicInferenceModel:
                 ),
                 start=start + 1,
             ):
-                if invalid[index]:
-                    continue
-
                 # Ensure range doesn't contain multiple different forced chords
                 if forced_chord != -1:
                     forced_chords.add(forced_chord)
@@ -760,6 +757,9 @@ class HarmonicInferenceModel:
                         reached_end = False
                         break
 
+                if invalid[index]:
+                    continue
+
                 # Ensure duration is still <= max_chord_length
                 running_duration += duration
                 if running_duration > self.max_chord_length:
@@ -783,8 +783,12 @@ class HarmonicInferenceModel:
                 # No change can occur
                 running_log_prob += no_change_log_prob
 
+            # The forces on the piece's last input haven't been checked yet
+            forced_chords |= set(self.forced_chord_ids[-1:]) - set([-1])
+            forced_keys |= set(self.forced_key_ids[-1:]) - set([-1])
+
             # Detect if a chord reaches the end of the piece and add it here if so
-            if reached_end:
+            if reached_end and len(forced_chords) <= 1 and len(forced_keys) <= 1:
                 chord_ranges.append((start, len(change_probs)))
                 range_log_probs.append(running_log_prob)
 
-- 
2.43.0


From f6b5c0d18e5b80f5af9a0c7e329bfe4b9b4aaf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:59 +0000
Subject: [PATCH 37/67] fix: the search fails on chords whose bass note is
 outside of the pitch range

---
 harmonic_inference/utils/beam_search_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 55cd308..bac74e2 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -195,7 +195,11 @@ class State:
             result in an invalid State (chord root too far away from key tonic).
         """
         root, chord_type, inversion = labels["chord"][chord]
-        bass = hu.get_bass_note(chord_type, root, inversion, pitch_type)
+        try:
+            bass = hu.get_bass_note(chord_type, root, inversion, pitch_type)
+        except ValueError:
+            # The chord's bass note can't be represented
+            return None
 
         tonic = self.get_key(pitch_type, labels).relative_tonic
         relative_root = root - tonic
-- 
2.43.0


From dcf074650ada92d7bbe86b7627abb1e04cde27f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:29 +0000
Subject: [PATCH 38/67] fix: invalid forced labels fail with a TypeError or
 KeyError instead of saying what is wrong

---
 harmonic_inference/models/joint_model.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 14eec45..62a9d6b 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -397,12 +397,14 @@ class HarmonicInferenceModel:
 
             if len(forced_changes) > 0 and max(forced_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced change ({max(forced_changes)}) is beyond the end of the piece"
                     f" (maximum index {len(self.duration_cache) - 1})."
                 )
 
             if len(forced_non_changes) > 0 and max(forced_non_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced non-change ({max(forced_non_changes)}) is beyond the end of "
                     f"the piece (maximum index {len(self.duration_cache) - 1})."
                 )
@@ -410,6 +412,7 @@ class HarmonicInferenceModel:
             # Ensure that no index is both a forced change and a force non-change
             if len(forced_changes & forced_non_changes) > 0:
                 raise ArgumentError(
+                    None,
                     f"{forced_changes & forced_non_changes} are both forced {type_str} "
                     f"changes and forced {type_str} non-changes."
                 )
@@ -418,6 +421,7 @@ class HarmonicInferenceModel:
             for change_index in forced_changes:
                 if self.duration_cache[change_index - 1] == 0:
                     raise ArgumentError(
+                        None,
                         f"{change_index} is an invalid index for a forced change because it is not "
                         "the first note at its metrical postiion."
                     )
@@ -440,6 +444,7 @@ class HarmonicInferenceModel:
             for (start, end), label_id in forced_labels.items():
                 if label_id < 0 or label_id >= max_id:
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str}_id {label_id} is outside of the valid range for "
                         f"{type_str}s (0-{max_id})."
                     )
@@ -447,7 +452,8 @@ class HarmonicInferenceModel:
                 valid_indexes = np.isin(forced_ids[start:end], [-1, label_id])
                 if not np.all(valid_indexes):
                     raise ArgumentError(
-                        f"The following indexes are forced to multiple different {type_str}s: ",
+                        None,
+                        f"The following indexes are forced to multiple different {type_str}s: "
                         f"{np.where(valid_indexes == False)[0] + start}",
                     )
 
@@ -460,6 +466,7 @@ class HarmonicInferenceModel:
                     and forced_ids[change_index] != -1
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str} change at index {change_index} but forced {type_str} "
                         f"is {forced_ids[change_index]} both before and after."
                     )
@@ -470,10 +477,11 @@ class HarmonicInferenceModel:
                     and -1 not in forced_ids[change_index - 1 : change_index + 1]
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced non {type_str} change at index {change_index} but forced "
                         f"{type_str} changes at that index are "
-                        f"({self.forced_chords[change_index - 1]} before and "
-                        f"{self.forced_chords[change_index]} after)."
+                        f"({forced_ids[change_index - 1]} before and "
+                        f"{forced_ids[change_index]} after)."
                     )
 
         # Second, check compatability between chord and key forces
@@ -482,6 +490,7 @@ class HarmonicInferenceModel:
         for change_index in self.forced_key_changes:
             if change_index in self.forced_chord_non_changes:
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but a forced non-chord change."
                     " This is illegal: all key changes must be accompanied by a chord change."
                 )
@@ -491,6 +500,7 @@ class HarmonicInferenceModel:
                 and self.forced_chord_ids[change_index] != -1
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but the chord is forced to id "
                     f"{self.forced_chord_ids[change_index]} both before and after."
                 )
@@ -502,6 +512,7 @@ class HarmonicInferenceModel:
                 and -1 not in self.forced_chord_ids[change_index]
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced non-chord change, but the key changes from"
                     f" {self.forced_key_ids[change_index - 1]} to "
                     f"{self.forced_key_ids[change_index]} at that index."
-- 
2.43.0


From 1438bd9c71962eda789e14e7ed2886c34d6944fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:29 +0000
Subject: [PATCH 39/67] fix: a forced chord non-change fails where only one
 side of the index has a forced key

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 62a9d6b..84480c3 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -509,7 +509,7 @@ class HarmonicInferenceModel:
         for change_index in self.forced_chord_non_changes:
             if (
                 self.forced_key_ids[change_index - 1] != self.forced_key_ids[change_index]
-                and -1 not in self.forced_chord_ids[change_index]
+                and -1 not in self.forced_key_ids[change_index - 1 : change_index + 1]
             ):
                 raise ArgumentError(
                     None,
-- 
2.43.0


From 743927abbea50f9c01a6a20e525f2fef554b66a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:29 +0000
Subject: [PATCH 40/67] fix: forced key changes and non-changes are ignored by
 the search

---
 harmonic_inference/models/joint_model.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 84480c3..7a7a716 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -679,7 +679,8 @@ class HarmonicInferenceModel:
             A List of the chord change probability on each input of the given Piece. This
             will be modified in place.
         """
-        change_probs[list(self.forced_chord_changes)] = 1.0
+        # Each forced key change must be accompanied by a chord change
+        change_probs[list(self.forced_chord_changes | self.forced_key_changes)] = 1.0
         change_probs[list(self.forced_chord_non_changes)] = 0.0
 
     def get_chord_ranges(
@@ -1071,6 +1072,22 @@ class HarmonicInferenceModel:
                         can_not_change = False
                         can_change = True  # Drop the min_key_change_prob requirement
 
+                if state.prev_state.change_index in self.forced_key_changes:
+                    can_not_change = False
+                    can_change = len(forced_key_ids) == 0 or can_change
+                elif state.prev_state.change_index in self.forced_key_non_changes:
+                    can_change = False
+                    can_not_change = state.is_valid(check_key=True) and (
+                        len(forced_key_ids) == 0 or can_not_change
+                    )
+
+                # Rejoined ranges may have different forced keys
+                if len(forced_key_ids) > 1:
+                    can_change = False
+                    can_not_change = False
+
+                can_change = can_change and state.can_key_transition()
+
                 # Make a copy only if necessary
                 change_state = state.copy() if can_change and can_not_change else state
 
-- 
2.43.0


From 848d2df57c645da238244d7991858e89e1b5386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:55 +0000
Subject: [PATCH 41/67] fix: the search may stay on the same chord at a forced
 chord change

---
 harmonic_inference/models/joint_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 7a7a716..bf9b6c1 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1006,6 +1006,10 @@ class HarmonicInferenceModel:
                 # Branch
                 for chord_id in chord_priors_argsort[:max_index]:
                     if chord_id == state.chord:
+                        if current_start in self.forced_chord_changes | self.forced_key_changes:
+                            # There must be a chord change here
+                            continue
+
                         # Same chord as last range: rejoin a split range
                         new_state = state.rejoin(
                             range_end,
-- 
2.43.0


From 6a36cddbd8357f4f0303c231ac4323186d8658ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:14 +0000
Subject: [PATCH 42/67] fix: labels go to the wrong piece if another piece has
 no labels csv

---
 harmonic_inference/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 79a549e..f353bbc 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -119,7 +119,7 @@ def load_pieces(
 
                 if music_xml_path.exists():
                     xmls.append(music_xml_path)
-                    csvs.append(label_csv_path) if label_csv_path.exists() else None
+                    csvs.append(label_csv_path if label_csv_path.exists() else None)
 
     else:
         files_df, measures_df, chords_df, notes_df = load_clean_corpus_dfs(input_path)
-- 
2.43.0


From 0f9f762c91121c2ac79a52b5a1e9bd3a793fcdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:14 +0000
Subject: [PATCH 43/67] fix: load_pieces crashes when a MusicXML file is given
 as a string

---
 harmonic_inference/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index f353bbc..681f84f 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -102,7 +102,7 @@ def load_pieces(
         csvs = []
 
         if Path(input_path).is_file():
-            xmls = [input_path]
+            xmls = [Path(input_path)]
             csvs = [None]
             input_path = Path(input_path).parent
 
-- 
2.43.0


From ae157ba7e470caf2df89d18036382ca18adaf678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:14 +0000
Subject: [PATCH 44/67] fix: load_pieces crashes if the pickled pieces do not
 exist

---
 harmonic_inference/utils/data_utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 681f84f..78d1667 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -128,13 +128,9 @@ def load_pieces(
         file_ids = list(files_df.index) if not xml else list(range(len(xmls)))
 
     # Load from pkl if available
-    if piece_dicts_path:
-        pkl_path = Path(piece_dicts_path)
-        if pkl_path.exists():
-            with open(pkl_path, "rb") as pkl_file:
-                piece_dicts = pickle.load(pkl_file)
-    elif xml:
-        piece_dicts = [None] * len(xmls)
+    if piece_dicts_path and Path(piece_dicts_path).exists():
+        with open(piece_dicts_path, "rb") as pkl_file:
+            piece_dicts = pickle.load(pkl_file)
     else:
         piece_dicts = [None] * len(file_ids)
 
-- 
2.43.0


From 29e4d6e22b135658c35fe08c93cc0cc650b3cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:14 +0000
Subject: [PATCH 45/67] fix: PieceTypes in a model's json file are loaded as
 PitchTypes

---
 harmonic_inference/utils/data_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 78d1667..e386147 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -13,7 +13,7 @@ from tqdm import tqdm
 
 import harmonic_inference.models.initial_chord_models as icm
 from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs
-from harmonic_inference.data.data_types import ChordType, PitchType
+from harmonic_inference.data.data_types import ChordType, PieceType, PitchType
 from harmonic_inference.data.piece import (
     Piece,
     get_measures_df_from_music21_score,
@@ -50,8 +50,10 @@ def load_kwargs_from_json(json_path: Union[Path, str, None]) -> Dict[str, Any]:
 
     for key, value in parsed_kwargs.items():
         if isinstance(value, str):
-            if value.startswith("PitchType") or value.startswith("PieceType"):
+            if value.startswith("PitchType"):
                 parsed_kwargs[key] = PitchType[value[10:]]
+            elif value.startswith("PieceType"):
+                parsed_kwargs[key] = PieceType[value[10:]]
 
         elif isinstance(value, dict) and "reduction" in key:
             parsed_kwargs[key] = {
-- 
2.43.0


From 7a8c9c338dbf8cd73fdc401486d37b9609681c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:14 +0000
Subject: [PATCH 46/67] fix: outputs of files with a space in their name go to
 the wrong file

---
 annotate.py | 2 +-
 test.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/annotate.py b/annotate.py
index c0784f8..0b3d173 100644
--- a/annotate.py
+++ b/annotate.py
@@ -170,7 +170,7 @@ def annotate(
             )
 
             if piece.name is not None and output_tsv_dir is not None:
-                piece_name = Path(piece.name.split(" ")[-1])
+                piece_name = Path(piece.name.split(": ", 1)[-1])
                 output_tsv_path = output_tsv_dir / (piece_name.stem + ".tsv")
 
                 try:
diff --git a/test.py b/test.py
index ab8717b..7152ed7 100755
--- a/test.py
+++ b/test.py
@@ -323,7 +323,7 @@ def evaluate(
         )
 
         if piece.name is not None and output_tsv_dir is not None:
-            piece_name = Path(piece.name.split(" ")[-1])
+            piece_name = Path(piece.name.split(": ", 1)[-1])
             output_tsv_path = output_tsv_dir / piece_name
 
             try:
-- 
2.43.0


From 2b22093a814ef8eb2a3677f819ca28fc6cc957d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:14 +0000
Subject: [PATCH 47/67] fix: annotations of pieces with the same name overwrite
 each other

---
 annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/annotate.py b/annotate.py
index 0b3d173..deb1ad8 100644
--- a/annotate.py
+++ b/annotate.py
@@ -171,7 +171,7 @@ def annotate(
 
             if piece.name is not None and output_tsv_dir is not None:
                 piece_name = Path(piece.name.split(": ", 1)[-1])
-                output_tsv_path = output_tsv_dir / (piece_name.stem + ".tsv")
+                output_tsv_path = output_tsv_dir / piece_name.parent / (piece_name.stem + ".tsv")
 
                 try:
                     output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 3488905feab5ee440cd13f615f62db1dfdd5cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:14 +0000
Subject: [PATCH 48/67] fix: test.py writes the labels of MusicXML files to
 .mxl files

---
 test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test.py b/test.py
index 7152ed7..e25a3b5 100755
--- a/test.py
+++ b/test.py
@@ -324,7 +324,7 @@ def evaluate(
 
         if piece.name is not None and output_tsv_dir is not None:
             piece_name = Path(piece.name.split(": ", 1)[-1])
-            output_tsv_path = output_tsv_dir / piece_name
+            output_tsv_path = output_tsv_dir / piece_name.parent / (piece_name.stem + ".tsv")
 
             try:
                 output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From b51b65ca433d17994e56aa347796a066b723a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:14 +0000
Subject: [PATCH 49/67] fix: annotate.py ignores --defaults and --fh-defaults

---
 annotate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/annotate.py b/annotate.py
index deb1ad8..7f5d053 100644
--- a/annotate.py
+++ b/annotate.py
@@ -320,6 +320,8 @@ if __name__ == "__main__":
         filemode="w",
     )
 
+    set_default_args(ARGS)
+
     # Load models
     models = load_models_from_argparse(ARGS)
 
-- 
2.43.0


From 12195c0eea014e9f24e818d148cb695f82e892f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:37 +0000
Subject: [PATCH 50/67] fix: verbose logging crashes on pieces without
 annotations

---
 harmonic_inference/utils/eval_utils.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 30ba8dd..a21afff 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -992,15 +992,16 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
         The pitch type used for the key tonics.
     """
     gt_chords = piece.get_chords()
-    gt_changes = piece.get_chord_change_indices()
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_chord_labels[start:end] = chord.get_one_hot_index(
+    if gt_chords is not None:
+        gt_changes = piece.get_chord_change_indices()
+        for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
+            gt_chord_labels[start:end] = chord.get_one_hot_index(
+                relative=False, use_inversion=True, pad=False
+            )
+        gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
             relative=False, use_inversion=True, pad=False
         )
-    gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
-        relative=False, use_inversion=True, pad=False
-    )
 
     chords, changes = state.get_chords()
     est_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -1008,11 +1009,12 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
         est_chord_labels[start:end] = chord
 
     gt_keys = piece.get_keys()
-    gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_key_labels[start:end] = key.get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+    if gt_keys is not None:
+        gt_changes = piece.get_key_change_input_indices()
+        for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
+            gt_key_labels[start:end] = key.get_one_hot_index()
+        gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
 
     keys, changes = state.get_keys()
     est_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -1054,5 +1056,7 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
 
         logging.debug("%s - %s (duration %s):", input_start, input_end, duration)
         logging.debug("    Estimated structure: %s\t%s", est_key_label, est_chord_label)
-        if gt_key_label != est_key_label or gt_chord_label != est_chord_label:
+        if gt_chords is not None and (
+            gt_key_label != est_key_label or gt_chord_label != est_chord_label
+        ):
             logging.debug("      Correct structure: %s\t%s", gt_key_label, gt_chord_label)
-- 
2.43.0


From e3055cf4891c69de6eb2a05e0c81e17926d22fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:52 +0000
Subject: [PATCH 51/67] fix: test.py crashes on pieces without annotations

---
 test.py | 84 ++++++++++++++++++++++++++++++---------------------------
 1 file changed, 44 insertions(+), 40 deletions(-)

diff --git a/test.py b/test.py
index e25a3b5..dbdabbc 100755
--- a/test.py
+++ b/test.py
@@ -295,58 +295,62 @@ def evaluate(
         if logging.getLogger().isEnabledFor(logging.DEBUG):
             eu.log_state(state, piece, model.CHORD_OUTPUT_TYPE, model.KEY_OUTPUT_TYPE)
 
-        labels_df = eu.get_label_df(
+        has_ground_truth = piece.get_chords() is not None
+        get_labels = eu.get_label_df if has_ground_truth else eu.get_annotation_df
+        labels_df = get_labels(
             state,
             piece,
             model.CHORD_OUTPUT_TYPE,
             model.KEY_OUTPUT_TYPE,
         )
 
-        # Write outputs tsv
-        results_df = eu.get_results_df(
-            piece,
-            state,
-            model.CHORD_OUTPUT_TYPE,
-            model.KEY_OUTPUT_TYPE,
-            PitchType.TPC,
-            PitchType.TPC,
-        )
+        if has_ground_truth:
+            # Write outputs tsv
+            results_df = eu.get_results_df(
+                piece,
+                state,
+                model.CHORD_OUTPUT_TYPE,
+                model.KEY_OUTPUT_TYPE,
+                PitchType.TPC,
+                PitchType.TPC,
+            )
 
-        # Write MIDI outputs for SPS chord-eval testing
-        results_midi_df = eu.get_results_df(
-            piece,
-            state,
-            model.CHORD_OUTPUT_TYPE,
-            model.KEY_OUTPUT_TYPE,
-            PitchType.MIDI,
-            PitchType.MIDI,
-        )
+            # Write MIDI outputs for SPS chord-eval testing
+            results_midi_df = eu.get_results_df(
+                piece,
+                state,
+                model.CHORD_OUTPUT_TYPE,
+                model.KEY_OUTPUT_TYPE,
+                PitchType.MIDI,
+                PitchType.MIDI,
+            )
 
         if piece.name is not None and output_tsv_dir is not None:
             piece_name = Path(piece.name.split(": ", 1)[-1])
             output_tsv_path = output_tsv_dir / piece_name.parent / (piece_name.stem + ".tsv")
 
-            try:
-                output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-                results_tsv_path = output_tsv_path.parent / (
-                    output_tsv_path.name[:-4] + "_results.tsv"
-                )
-                results_df.to_csv(results_tsv_path, sep="\t")
-                logging.info("Results TSV written out to %s", results_tsv_path)
-            except Exception:
-                logging.exception("Error writing to csv %s", results_tsv_path)
-                logging.debug(results_df)
-
-            try:
-                output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-                results_tsv_path = output_tsv_path.parent / (
-                    output_tsv_path.name[:-4] + "_results_midi.tsv"
-                )
-                results_midi_df.to_csv(results_tsv_path, sep="\t")
-                logging.info("MIDI results TSV written out to %s", results_tsv_path)
-            except Exception:
-                logging.exception("Error writing to csv %s", results_tsv_path)
-                logging.debug(results_midi_df)
+            if has_ground_truth:
+                try:
+                    output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
+                    results_tsv_path = output_tsv_path.parent / (
+                        output_tsv_path.name[:-4] + "_results.tsv"
+                    )
+                    results_df.to_csv(results_tsv_path, sep="\t")
+                    logging.info("Results TSV written out to %s", results_tsv_path)
+                except Exception:
+                    logging.exception("Error writing to csv %s", results_tsv_path)
+                    logging.debug(results_df)
+
+                try:
+                    output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
+                    results_tsv_path = output_tsv_path.parent / (
+                        output_tsv_path.name[:-4] + "_results_midi.tsv"
+                    )
+                    results_midi_df.to_csv(results_tsv_path, sep="\t")
+                    logging.info("MIDI results TSV written out to %s", results_tsv_path)
+                except Exception:
+                    logging.exception("Error writing to csv %s", results_tsv_path)
+                    logging.debug(results_midi_df)
 
             try:
                 output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 6148783c6358eaad65f865f683bc1964beb0a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:26 +0000
Subject: [PATCH 52/67] fix: the last note has a negative duration if the last
 chord ends before it

---
 harmonic_inference/data/piece.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 61cb9be..7d708d2 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -428,7 +428,7 @@ class ScorePiece(Piece):
                 0,
                 0,
                 self.chords[-1].offset
-                if self.chords is not None
+                if self.chords is not None and self.chords[-1].offset > self.notes[-1].onset
                 else max(note.offset for note in self.notes),
                 0,
                 Fraction(0),
-- 
2.43.0


From fdd9c0cef4148517c2932ef63f1f5f6f9ee91087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:29 +0000
Subject: [PATCH 53/67] fix: load_pieces crashes if only some of the pieces are
 annotated

---
 harmonic_inference/utils/data_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index e386147..4d43fbc 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -169,7 +169,9 @@ def load_pieces(
         pieces = [
             get_score_piece_from_data_frames(
                 notes_df.loc[file_id],
-                chords_df.loc[file_id] if chords_df is not None else None,
+                chords_df.loc[file_id]
+                if chords_df is not None and file_id in chords_df.index
+                else None,
                 measures_df.loc[file_id],
                 name=(
                     f"{file_id}: {files_df.loc[file_id, 'corpus_name']}/"
-- 
2.43.0


From c53e03423244ddf1c82db1c35a7958ad752a9717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:46 +0000
Subject: [PATCH 54/67] fix: forced seventh chords in a score are read as
 triads

---
 harmonic_inference/utils/forces.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 7e04281..4462bce 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -25,7 +25,9 @@ PITCH_REGEX = r"[A-Ga-g](#{0,2}|b{0,2})"
 
 CHORD_REGEX = re.compile(
     f"C=({PITCH_REGEX})"  # Root
-    "(" + "|".join(list(CHORD_TYPE_TO_STRING.values())).replace("+", "\\+") + ")"  # Chord type
+    "("
+    + "|".join(sorted(CHORD_TYPE_TO_STRING.values(), key=len, reverse=True)).replace("+", "\\+")
+    + ")"  # Chord type
     r"(_[0-3])?"  # Inversion
 )
 KEY_REGEX = re.compile(f"K={PITCH_REGEX}")
-- 
2.43.0


From c67fc240d8d176e5078c23c4106c19a479e7a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:46 +0000
Subject: [PATCH 55/67] fix: forced chords without an inversion in a score
 crash

---
 harmonic_inference/utils/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 4462bce..d413361 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -173,7 +173,7 @@ def extract_forces_from_musescore(
                 STRING_TO_CHORD_TYPE[label_df[2]],
                 get_pitch_from_string(label_df[0], PitchType.TPC),
                 PitchType.TPC,
-                inversion=0 if len(label_df[3]) == 0 else int(label_df[3][-1]),
+                inversion=0 if pd.isnull(label_df[3]) else int(label_df[3][-1]),
             ),
         )
         for mc, mn_onset, (_, label_df) in zip(
-- 
2.43.0


From b1f136aae5dbaf18f437401c0afc938621cc5776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:46 +0000
Subject: [PATCH 56/67] fix: forced positions after the last note fail with an
 IndexError

---
 harmonic_inference/utils/forces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index d413361..2b3f72e 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -60,6 +60,8 @@ def convert_score_positions_to_note_indexes(
     for i, force in enumerate(forces):
         index = bisect.bisect_left(note_positions, force[:2])
 
+        if index == len(note_positions):
+            raise ValueError(f"Position {force[:2]} is after the last note onset.")
         if note_positions[index] != force[:2]:
             raise ValueError(
                 f"Position {force[:2]} is not a note onset. Closest is {note_positions[index]}"
-- 
2.43.0


From b7234358636da4b75c1a776a9e4dbadb33e3974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:46 +0000
Subject: [PATCH 57/67] fix: load_pieces counts unlabelled MusicXML files,
 unlike create_h5_data.py

---
 harmonic_inference/utils/data_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 4d43fbc..e7b6e24 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -119,7 +119,8 @@ def load_pieces(
                     / Path(str(music_xml_path.stem) + ".csv")
                 )
 
-                if music_xml_path.exists():
+                # File ids count only the files with labels, as in create_h5_data.py
+                if music_xml_path.exists() and (label_csv_path.exists() or not file_ids):
                     xmls.append(music_xml_path)
                     csvs.append(label_csv_path if label_csv_path.exists() else None)
 
-- 
2.43.0


From 3b013af4a6f1c94a626fab32625b8a6be553c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:12 +0000
Subject: [PATCH 58/67] fix: create_h5_data.py crashes if there is no key
 change in a split

---
 create_h5_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/create_h5_data.py b/create_h5_data.py
index 9cd9c3c..9cc7b3b 100755
--- a/create_h5_data.py
+++ b/create_h5_data.py
@@ -162,7 +162,10 @@ if __name__ == "__main__":
 
     for i1, data_type in enumerate(DATASET_CLASSES):
         for i2, split in enumerate(SPLITS):
-            if dataset_splits[i1][i2] is not None:
+            if dataset_splits[i1][i2] is not None and len(dataset_splits[i1][i2]) == 0:
+                # E.g., no key changes in any of the split's pieces
+                logging.warning("No data for %s in the %s split.", data_type.__name__, split)
+            elif dataset_splits[i1][i2] is not None:
                 h5_path = ARGS.output / f"{data_type.__name__}_{split}_seed_{ARGS.seed}.h5"
                 dataset_splits[i1][i2].to_h5(h5_path, file_ids=split_ids[i2])
                 dataset_splits[i1][i2] = None
-- 
2.43.0


From 6ca889ba639a78d06c8fd44c9931b4e68f216cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:12 +0000
Subject: [PATCH 59/67] fix: create_h5_data.py does not know -h5, as documented
 in the README

---
 create_h5_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/create_h5_data.py b/create_h5_data.py
index 9cc7b3b..9e3fcc3 100755
--- a/create_h5_data.py
+++ b/create_h5_data.py
@@ -49,6 +49,7 @@ if __name__ == "__main__":
     parser.add_argument(
         "-o",
         "--output",
+        "-h5",
         type=Path,
         default=Path("h5_data"),
         help="The directory to save the created h5 data into.",
-- 
2.43.0


From ee4d1bdf205eabbd713e5342a2757e6c70eb420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:09 +0000
Subject: [PATCH 60/67] fix: labels of files with special characters in their
 name are not written to scores

---
 harmonic_inference/utils/eval_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index a21afff..4b683cb 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -923,7 +923,7 @@ def write_labels_to_score(
         annotations_dir = str(annotations_dir)
 
     # Add musescore and tsv suffixes to filename match
-    filename_regex = re.compile(basename + "\\.(mscx|tsv)")
+    filename_regex = re.compile(re.escape(basename) + "\\.(mscx|tsv)")
 
     # Parse scores and tsvs
     parse = Parse(annotations_dir, file_re=filename_regex)
-- 
2.43.0


From cb67b970f97af91a80cd906efd48c59bb994455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:09 +0000
Subject: [PATCH 61/67] fix: extract_forces_from_musescore crashes if the score
 is given as a Path

---
 harmonic_inference/utils/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 2b3f72e..228450e 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -112,7 +112,7 @@ def extract_forces_from_musescore(
         Tuples of (mc, mn_onset, chord_id) indicating positions at which a given key label is
         forced.
     """
-    score = Score(score_path)
+    score = Score(str(score_path))
 
     labels = score.annotations.get_labels()
 
-- 
2.43.0


From a131d183831b53316d4f1aed13a75f86674cd8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:25 +0000
Subject: [PATCH 62/67] fix: forces of a score without labels or without lyrics
 crash

---
 harmonic_inference/utils/forces.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 228450e..90291c2 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -114,11 +114,15 @@ def extract_forces_from_musescore(
     """
     score = Score(str(score_path))
 
-    labels = score.annotations.get_labels()
+    if score.annotations is None:
+        # No labels in the score
+        labels = pd.DataFrame(columns=["mc", "mn_onset", "label"], dtype=object)
+    else:
+        labels = score.annotations.get_labels()
 
     chord_labels = score.mscx.get_chords(lyrics=True)
     chord_labels = chord_labels.loc[~chord_labels["lyrics"].isnull()]
-    chord_labels["label"] = chord_labels["lyrics"]
+    chord_labels["label"] = chord_labels["lyrics"].astype(str)
 
     chord_changes = pd.concat(
         [
-- 
2.43.0


From 70ebd1a5854602a64c5df2bff1c9d6a17d27f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:42 +0000
Subject: [PATCH 63/67] fix: write_to_score.py also writes out scores whose
 name ends in another piece's name

---
 harmonic_inference/utils/eval_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 4b683cb..5016144 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -923,7 +923,7 @@ def write_labels_to_score(
         annotations_dir = str(annotations_dir)
 
     # Add musescore and tsv suffixes to filename match
-    filename_regex = re.compile(re.escape(basename) + "\\.(mscx|tsv)")
+    filename_regex = re.compile("^" + re.escape(basename) + "\\.(mscx|tsv)$")
 
     # Parse scores and tsvs
     parse = Parse(annotations_dir, file_re=filename_regex)
-- 
2.43.0


From ec3036305a677b79ecfa82305e6d36e48e56a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:30 +0000
Subject: [PATCH 64/67] fix: forced chord changes can be skipped if
 max_no_chord_change_prob is 1

A forced change is given probability 1, which is not greater than a
max_no_chord_change_prob of 1, so that ranges could include it (and, likewise,
a forced non-change could end a range if min_chord_change_prob is 0).
---
 harmonic_inference/models/joint_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index bf9b6c1..a707cc5 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -778,7 +778,10 @@ class HarmonicInferenceModel:
                     reached_end = False
                     break
 
-                if change_prob >= self.min_chord_change_prob:
+                if (
+                    change_prob >= self.min_chord_change_prob
+                    and index not in self.forced_chord_non_changes
+                ):
                     # Chord change can occur
                     chord_ranges.append((start, index))
                     range_log_probs.append(running_log_prob + change_log_prob)
@@ -787,7 +790,10 @@ class HarmonicInferenceModel:
                         heapq.heappush(starts, index)
                         in_starts[index] = True
 
-                    if change_prob > self.max_no_chord_change_prob:
+                    if (
+                        change_prob > self.max_no_chord_change_prob
+                        or index in self.forced_chord_changes | self.forced_key_changes
+                    ):
                         # Chord change must occur
                         reached_end = False
                         break
-- 
2.43.0


From f0962380495aa7e692bf7caeef53f20616c321bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:30 +0000
Subject: [PATCH 65/67] fix: initial chord models with a reduction or without
 inversions crash

The number of labels was a list, and relative roots were used as indexes.
---
 .../models/initial_chord_models.py             | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/harmonic_inference/models/initial_chord_models.py b/harmonic_inference/models/initial_chord_models.py
index dab7fa7..1656850 100644
--- a/harmonic_inference/models/initial_chord_models.py
+++ b/harmonic_inference/models/initial_chord_models.py
@@ -6,8 +6,9 @@ from typing import Dict, List, Union
 
 import numpy as np
 
+import harmonic_inference.utils.harmonic_constants as hc
 from harmonic_inference.data.chord import Chord, get_chord_vector_length
-from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode
+from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode, PitchType
 from harmonic_inference.data.piece import Piece
 from harmonic_inference.utils.harmonic_utils import (
     get_chord_from_one_hot_index,
@@ -108,11 +109,13 @@ class SimpleInitialChordModel:
                 self.reduction = new_reduction
 
         if reduction is not None or not use_inversions:
-            num_labels = get_chord_label_list(
-                self.PITCH_TYPE,
-                use_inversions,
-                relative=True,
-                reduction=reduction,
+            num_labels = len(
+                get_chord_label_list(
+                    self.PITCH_TYPE,
+                    use_inversions,
+                    relative=True,
+                    reduction=reduction,
+                )
             )
             self.major_prior = np.zeros(num_labels)
             self.minor_prior = np.zeros(num_labels)
@@ -128,6 +131,9 @@ class SimpleInitialChordModel:
                     use_inversions=inversions_present,
                 ),
             ):
+                if self.PITCH_TYPE == PitchType.TPC:
+                    root -= hc.MIN_RELATIVE_TPC
+
                 index = get_chord_one_hot_index(
                     chord_type,
                     root,
-- 
2.43.0


From ab44eca8dcf848a7cc6ec9d01127d4ef04175c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:20 +0000
Subject: [PATCH 66/67] fix: evaluate gives nan if a batch has no targets

A batch of pieces with a single chord (or onset) has no targets, and made the
loss and accuracy of the whole dataset nan.
---
 harmonic_inference/models/chord_sequence_models.py   | 5 +++++
 harmonic_inference/models/chord_transition_models.py | 3 +++
 harmonic_inference/models/key_transition_models.py   | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/harmonic_inference/models/chord_sequence_models.py b/harmonic_inference/models/chord_sequence_models.py
index a521e4b..6b7da54 100755
--- a/harmonic_inference/models/chord_sequence_models.py
+++ b/harmonic_inference/models/chord_sequence_models.py
@@ -152,6 +152,9 @@ class ChordSequenceModel(pl.LightningModule, ABC):
             outputs = outputs.argmax(-1).reshape(-1)[mask]
             targets = targets[mask]
             batch_count = len(targets)
+            if batch_count == 0:
+                continue
+
             acc = 100 * (outputs == targets).sum().float() / len(targets)
 
             total += batch_count
@@ -532,6 +535,8 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
             flat_outputs = flat_outputs[flat_mask]
             flat_targets = flat_targets[flat_mask]
             batch_count = len(flat_targets)
+            if batch_count == 0:
+                continue
 
             loss = F.binary_cross_entropy(flat_outputs, flat_targets.float())
 
diff --git a/harmonic_inference/models/chord_transition_models.py b/harmonic_inference/models/chord_transition_models.py
index 61a1536..a473ff2 100755
--- a/harmonic_inference/models/chord_transition_models.py
+++ b/harmonic_inference/models/chord_transition_models.py
@@ -121,6 +121,9 @@ class ChordTransitionModel(pl.LightningModule, ABC):
             targets = targets.reshape(-1)[flat_mask]
 
             batch_count = len(outputs)
+            if batch_count == 0:
+                continue
+
             loss = F.binary_cross_entropy(outputs, targets.float())
             acc = 100 * (outputs.round() == targets).sum().float() / len(outputs)
 
diff --git a/harmonic_inference/models/key_transition_models.py b/harmonic_inference/models/key_transition_models.py
index 9655285..0c6df29 100755
--- a/harmonic_inference/models/key_transition_models.py
+++ b/harmonic_inference/models/key_transition_models.py
@@ -130,6 +130,9 @@ class KeyTransitionModel(pl.LightningModule, ABC):
             targets = targets.reshape(-1)[flat_mask]
 
             batch_count = len(outputs)
+            if batch_count == 0:
+                continue
+
             loss = F.binary_cross_entropy(outputs, targets)
             acc = 100 * (outputs.round().long() == targets).sum().float() / len(outputs)
 
-- 
2.43.0


From e1397fd0c960a25c49c6186bb9be79b72c7a5046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:07 +0000
Subject: [PATCH 67/67] fix: only one of several added pitches of a chord is
 reported

---
 harmonic_inference/utils/eval_utils.py     |  4 ++--
 harmonic_inference/utils/harmonic_utils.py | 13 +++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 5016144..a695b7b 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -174,7 +174,7 @@ def get_labels_df(piece: Piece, tpc_c: int = hc.TPC_C) -> pd.DataFrame:
         if chord.suspension is None:
             return "", ""
 
-        change_mapping = hu.get_added_and_removed_pitches(
+        changed_pitches = hu.get_added_and_removed_pitches(
             chord.root,
             chord.chord_type,
             chord.suspension,
@@ -184,7 +184,7 @@ def get_labels_df(piece: Piece, tpc_c: int = hc.TPC_C) -> pd.DataFrame:
 
         mappings_midi = []
         mappings_tpc = []
-        for orig, new in change_mapping.items():
+        for orig, new in changed_pitches:
             if orig == "":
                 orig_midi = ""
                 orig_tpc = ""
diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index fd90cc2..78f6d9e 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -144,9 +144,9 @@ def get_added_and_removed_pitches(
     changes: str,
     key_tonic_tpc: int,
     key_mode: KeyMode,
-) -> Dict[str, str]:
+) -> List[Tuple[str, str]]:
     """
-    Get a mapping of pitch alterations from the given chord. Pitches are given
+    Get a list of pitch alterations from the given chord. Pitches are given
     and returned with PitchType TPC because accidental-specific math is required
     to correctly apply accidentals.
 
@@ -165,9 +165,10 @@ def get_added_and_removed_pitches(
 
     Returns
     -------
-    changed_pitches : Dict[str, str]
-        A dictionary representing pitch alterations to the given chord. Each entry represents
-        a mapping of original_pitch -> new_pitch, represented as a string of their TPC integer.
+    changed_pitches : List[Tuple[str, str]]
+        A list representing pitch alterations to the given chord, in the order of the changes.
+        Each entry is a tuple (original_pitch, new_pitch), represented as a string of their TPC
+        integer. Multiple entries may have the same original_pitch (e.g., multiple added pitches).
         If original_pitch is empty, then the new_pitch is simply added. If new_pitch begins
         with "+", then it is added in an upper octave.
     """
@@ -253,7 +254,7 @@ def get_added_and_removed_pitches(
             # No removed pitch
             removed_pitches.append("")
 
-    return {removed: added for removed, added in zip(removed_pitches, added_pitches)}
+    return list(zip(removed_pitches, added_pitches))
 
 
 def get_chord_from_one_hot_index(
-- 
2.43.0


---------------------------- MODULE UnicodeData ----------------------------
(***************************************************************************)
(* Data of the environment: the alphabetic characters according to the     *)
(* Unicode tables of the toolchain's standard library, as an increasing    *)
(* sequence of intervals <<lo, hi>>.  Without a table (in models that do   *)
(* not use such characters), the ASCII letters.                            *)
(***************************************************************************)
EXTENDS Sequences, Json, IOUtils

AlphaRanges ==
  IF "VERIF_ALPHA" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.VERIF_ALPHA)
  ELSE << <<65, 90>>, <<97, 122>> >>
=============================================================================

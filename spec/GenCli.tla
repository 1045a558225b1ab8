------------------------------- MODULE GenCli -------------------------------
(* The command lines of MCCli, for replay.                                    *)
(*   "GEN " sequence of tokens                                                *)
EXTENDS MCCli, Json
GSpec == MSpec
Emit == cm.ph = "args" /\ cm.k = 1 => PrintT("GEN " \o ToJson(ctoks))
=============================================================================

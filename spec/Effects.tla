------------------------------- MODULE Effects -------------------------------
(* What a call may leave behind besides its result (C24).                          *)
(* The world is a function from its parts to versions; a call is a step that keeps     *)
(* every part as it was.  The driver records which parts did change during a call.       *)
EXTENDS Naturals, Sequences
(* files         written, removed, renamed, made, or opened for that                     *)
(* processes     started or signalled                                                     *)
(* network       any use of a socket                                                      *)
(* streams       standard output, standard error, standard input, the system's log            *)
(* generator     the state of the seedable generator all of the process shares                  *)
(* environment, directory, locale, decimal, signals, path, limits, hooks, filters, logging       *)
(*               what the process has only one of                                                *)
(* others        names in modules that are not the library's                                        *)
(* coins         the tables of coins and networks                                                  *)
(* threads       still running                                                                     *)
(* zone, descriptors   the time zone; files left open                                                *)
Parts == {"files", "processes", "network", "streams", "generator", "environment", "directory", "locale", "decimal",
          "signals", "path", "limits", "hooks", "filters", "logging", "others", "coins", "threads", "zone", "descriptors"}
(* No operation has one that is its purpose.  (Octets drawn from the operating system  *)
(* are no part of the world: C18.)                                                        *)
MayTouch(op) == {}
Touched(e) == IF "fx" \in DOMAIN e THEN {e.fx[k] : k \in 1..Len(e.fx)} ELSE {}
EffectClauses(e) ==
  UNION {IF x \in MayTouch(e.op) THEN {} ELSE {"C24:changes-" \o x} : x \in Touched(e)}
  \cup (IF Touched(e) \subseteq Parts THEN {} ELSE {"ALL:unknown-part-of-the-world"})
  \cup (IF "fx" \in DOMAIN e \/ e.op = "forge" THEN {} ELSE {"ALL:effects-not-recorded"})
=============================================================================

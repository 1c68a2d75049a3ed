---- MODULE Header ----
(***************************************************************************)
(* The header of a document (C18): what it says, what an animation reports *)
(* about it, and what setting an item does.                                *)
(*                                                                         *)
(* What a document says is                                                 *)
(*   [num   |-> item -> decimal text, for the numbers it gives,            *)
(*    fps   |-> thousandths, 0 if it does not say,                         *)
(*    box, bg |-> <<>> or <<[t |-> text, l |-> its numbers]>>,             *)
(*    begin, end |-> <<>> or <<time specification>> (see TimeSpec),        *)
(*    name, desc |-> <<>> or <<text>>,                                     *)
(*    kf    |-> sequence of [time |-> specification, name, active]]        *)
(***************************************************************************)
EXTENDS TimeSpec

NumItems == {"version", "width", "height", "xres", "yres", "gamma_r", "gamma_g", "gamma_b", "antialias"}
Default == [version |-> "1.2", width |-> "480", height |-> "270", xres |-> "2834.645669", yres |-> "2834.645669",
            gamma_r |-> "1", gamma_g |-> "1", gamma_b |-> "1", antialias |-> "1"]
DefaultBox == [t |-> "-4.0 2.25 4.0 -2.25", l |-> <<"-4", "2.25", "4", "-2.25">>]
DefaultBg == [t |-> "0.5 0.5 0.5 1.0", l |-> <<"0.5", "0.5", "0.5", "1">>]
Frames0 == [f |-> "parts", neg |-> FALSE, inneg |-> FALSE, ps |-> <<[u |-> "f", n |-> Zero]>>]
Seconds(n) == [f |-> "parts", neg |-> FALSE, inneg |-> FALSE, ps |-> <<[u |-> "s", n |-> Int6(n)]>>]

Or(q, d) == IF q = <<>> THEN d ELSE q[1]
Fps(s) == IF s.fps = 0 THEN 24000 ELSE s.fps
Doc(s) == [fps |-> Fps(s), begin |-> Or(s.begin, Frames0), end |-> Or(s.end, Seconds(5))]
At(s, sp) == DenoteText(sp, Fps(s)).fr

Alpha(l) == IF Len(l) = 3 THEN l \o <<"1">> ELSE l

(* what the animation reports *)
Report(s) ==
    [num |-> [x \in NumItems |-> IF x \in DOMAIN s.num THEN s.num[x] ELSE Default[x]],
     fps |-> Fps(s),
     view_box |-> Or(s.box, DefaultBox).t, viewbox |-> Or(s.box, DefaultBox).l,
     bgcolor |-> Or(s.bg, DefaultBg).t, background |-> Alpha(Or(s.bg, DefaultBg).l),
     begin |-> At(s, Doc(s).begin), end |-> At(s, Doc(s).end),
     framecount |-> Trunc6(Sub6(Duration(Doc(s)), Int6(1))) + 1,
     last |-> Sub6(Duration(Doc(s)), Int6(1)),
     second |-> At(s, Seconds(1)),
     name |-> Or(s.name, ""), desc |-> Or(s.desc, ""),
     kf |-> [j \in DOMAIN s.kf |-> [time |-> At(s, s.kf[j].time), name |-> s.kf[j].name, active |-> s.kf[j].active]]]

(* the attribute or element that holds an item *)
Holder(x) == CASE x = "gamma_r" -> "gamma-r" [] x = "gamma_g" -> "gamma-g" [] x = "gamma_b" -> "gamma-b"
               [] x = "box" -> "view-box" [] x = "bg" -> "bgcolor" [] x = "begin" -> "begin-time"
               [] x = "end" -> "end-time" [] OTHER -> x

(* setting an item; `stored' is how a time is written down, which is not
   prescribed except that it must denote that time *)
Set(s, x, v, stored) ==
    CASE x \in NumItems -> [s EXCEPT !.num = [y \in DOMAIN s.num \cup {x} |-> IF y = x THEN v ELSE s.num[y]]]
      [] x = "fps" -> [s EXCEPT !.fps = v]
      [] x \in {"begin", "end"} -> [s EXCEPT ![x] = stored]
      [] OTHER -> [s EXCEPT ![x] = <<v>>]

(* the instant a time denotes when it is assigned *)
Instant(s, v) == Denote(v, Doc(s), TRUE)
====

------------------------------ MODULE CliCases ------------------------------
(* Runs of the command: every sequence of a few arguments from a          *)
(* vocabulary, every combination of options in several spellings, and     *)
(* texts to convert that make every option matter.                        *)
EXTENDS Universe, CliFiles, SequencesExt, Json, IOUtils

Text1(v) == [k |-> "json", tagged |-> v]
Bad(x) == [k |-> "bad", raw |-> x]
Rich == Sch(TypeIs("object") @@ ("required" :> Texts(<<"fooBar", "t">>)) @@ ("description" :> JStr("a \"root\" \\ \n\tof all"))
            @@ ("properties" :> JObj(("fooBar" :> Describe(Int, <<"say \"x\" \\ y">>, <<"t\tt\n">>)) @@ ("t" :> TupOf(<<Int, Str>>, <<1>>, <<2>>, <<>>))
                 @@ ("m" :> MapOf(Empty)) @@ ("e" :> Empty) @@ ("o" :> ObjOf("XMLHttp" :> Int, <<>>)) @@ ("d" :> Fmt("date-time"))
                 @@ ("l" :> ArrOf(ArrOf(Int))))))
Plainly == ObjOf(("fooBar" :> Int) @@ ("b-c" :> ArrOf(Str)), <<"b-c">>)
NoTuple == Sch(TypeIs("array"))
Bads == {Bad(""), Bad("{"), Bad("{\"type\": \"integer\"} x"), Bad("{\"type\": \"integer\"}{}"), Bad("nope"), Bad("{'type': 'integer'}"), Bad("{\"type\": \"integer\",}")}
Vocab == {"-c", "-n", "-w", "-cn", "-wc", "--normalize-case", "--force-nullable", "--tuple-struct", "--allow-maps-without-value",
          "-t", "-r", "--type", "--resolve", "avro", "bigquery", "cast", "drop", "panic", "-tbigquery", "-t=avro", "--type=bigquery",
          "--resolve=drop", "-rpanic", "-", "--", "FILE", "NOFILE", "DIR", "-x", "--nope", "-h", "--version", "", "-cntbigquery", "--type=parquet",
          "--resolve=", "-c=true", "--force-nullable=true", "Bigquery"}
Small == {"-c", "-nw", "--tuple-struct", "-t", "--type", "avro", "bigquery", "-rdrop", "--resolve=panic", "-r", "-", "--", "FILE", "-tbigquery", "--nope", "-h"}
Flags == {"c", "n", "u", "w"}
LongOf == ("c" :> "--normalize-case") @@ ("n" :> "--force-nullable") @@ ("u" :> "--tuple-struct") @@ ("w" :> "--allow-maps-without-value")
ShortOf(f) == IF f = "u" THEN "--tuple-struct" ELSE "-" \o f
Spelled(t, r, fs, style) ==
  LET longs == [i \in DOMAIN SetToSeq(fs) |-> LongOf[SetToSeq(fs)[i]]]
      shorts == [i \in DOMAIN SetToSeq(fs) |-> ShortOf(SetToSeq(fs)[i])]
  IN CASE style = 1 -> <<"--type", t, "--resolve", r>> \o longs
       [] style = 2 -> shorts \o <<"-t" \o t, "-r=" \o r, "FILE">>
       [] style = 3 -> <<"--resolve=" \o r>> \o shorts \o <<"--type=" \o t, "-">>
       [] style = 4 -> <<"FILE", "-r", r, "-t", t>> \o longs
       [] style = 5 -> shorts \o <<"-r" \o r, "-t=" \o t, "--", "FILE">>
Run1(args, stdin, file) == [args |-> args, stdin |-> stdin, file |-> file]
TextsAll == {Text1(Rich), Text1(Plainly), Text1(Int), Text1(Empty), Text1(NoTuple), Text1(MapOf(Empty)), Text1(JInt(5)), Text1(JBool(TRUE)), Text1(JStr("x"))}
CliU(deep) ==
  {Run1(Spelled(t, r, fs, st), x, y) : t \in {"avro", "bigquery"}, r \in Methods, fs \in SUBSET Flags, st \in 1..5,
       x \in {Text1(Rich)}, y \in {Text1(Plainly)}}
  \cup {Run1(Spelled(t, r, fs, st), x, y) : t \in {"avro", "bigquery"}, r \in Methods, fs \in {{}, Flags}, st \in 1..5,
       x \in TextsAll \cup Bads, y \in IF deep THEN {Text1(Rich), Text1(Int), Text1(NoTuple), Bad("{"), Bad("")} ELSE {Text1(Rich), Bad("{")}}
  \cup {Run1(s, Text1(Rich), Text1(Plainly)) : s \in {<<>>} \cup {<<a>> : a \in Vocab} \cup {<<a, b>> : a, b \in Vocab}
          \cup (IF deep THEN {<<a, b, c>> : a, b \in Vocab, c \in Small} \cup {<<a, b, c>> : a, b, c \in Small} ELSE {<<a, b, c>> : a, b, c \in {"-t", "bigquery", "-c", "FILE", "--"}})}
  \cup {Run1(s, Text1(Rich), Text1(Plainly)) : s \in UNION {{<<f>>, <<"--", f>>, <<"-tbigquery", f, "-c">>, <<f, f>>} : f \in FileNames \cup DashNames \cup {"DIR/-", "FILE/", ".", "/dev/null"}}}
  \cup (IF deep THEN {Run1(s, Text1(Rich), Text1(Plainly)) : s \in {<<a, b, c, d>> : a, b, c, d \in {"-t", "bigquery", "-c", "FILE", "--", "-", "-rdrop", "-nw"}}} ELSE {})
Cases == LET s == SetToSeq(CliU(IOEnv.DEEP = "1")) IN [i \in DOMAIN s |-> ("id" :> "u" \o NatText(i)) @@ s[i]]
ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
VARIABLE done
Init == done = FALSE
Next == UNCHANGED done
=============================================================================

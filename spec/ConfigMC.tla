------------------------------ MODULE ConfigMC ------------------------------
(***************************************************************************)
(* All configuration files put together from up to N chunks: does the      *)
(* meaning Config.tla gives them have the qualities it ought to have?      *)
(***************************************************************************)
EXTENDS Config

CONSTANT N

Chunks == { <<"WARC-Record-ID:", "\thttp://x/">>, <<"warc-record-id:", " http://x/ 96">>, <<"WARC-Record-ID:", "\thttp://x/ 97">>,
            <<"WARC-Record-ID:", "\thttp://x">>,
            <<"silo.directory:", "\t/d/">>, <<"silo.directory:", "\t/d">>, <<"silo.directory:", "\t/d/\t/e/">>,
            <<"silo.max_size:", "\t4k">>, <<"Silo.Max_Size:", "\t5k", "\t6k">>, <<"silo.max_size:">>, <<"silo.max_size:", " 4 k">>,
            <<"silo.basename:", "\tx">>, <<"silo.basename:", "  %u.gz">>, <<"index.sort_size:", "\t1k">>,
            <<"warcinfo.body:", "\ta: b", "\tc: d e">>, <<"other:", "\tx">>, <<"junk">>, <<"\tentry">> }

VARIABLE cs
Init == cs = <<>>
Next == Len(cs) < N /\ \E c \in Chunks : cs' = Append(cs, c)
Spec == Init /\ [][Next]_cs

RECURSIVE Flat(_)
Flat(x) == IF x = <<>> THEN <<>> ELSE x[1] \o Flat(Tail(x))
Lines == Flat(cs)
M == Meaning(Lines)

Insert(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))

\* Comments, empty lines and white space at the end of lines do not matter
Noise == LET m == M IN
         /\ \A i \in 0..Len(Lines) : \A x \in {"", "# silo.directory:", " \t ", "#"} : Meaning(Insert(Lines, i, x)) = m
         /\ Meaning([i \in DOMAIN Lines |-> Lines[i] \o " \t# x:"]) = m
         /\ Meaning([i \in DOMAIN Lines |-> Lines[i] \o "\r"]) = m
\* Nor does the order of the sections (unless it begins with an entry)
Order == LET m == M IN
         (\A i \in DOMAIN cs : cs[i] # <<"\tentry">>) =>
            \A i \in 1..Len(cs) - 1 : Meaning(Flat([cs EXCEPT ![i] = cs[i + 1], ![i + 1] = cs[i]])) = m
\* Trouble anywhere is trouble
Junk == /\ (\E i \in DOMAIN cs : cs[i] = <<"junk">>) => ~M.ok
        /\ (cs # <<>> /\ cs[1] = <<"\tentry">>) => ~M.ok
        /\ (\E i, j \in DOMAIN cs : i # j /\ Lower(cs[i][1]) = Lower(cs[j][1]) /\ cs[i] # <<"\tentry">>) => ~M.ok
\* What is good has what it takes
Good == M.ok => /\ M.idlen \in {32, 24} /\ M.prefix = "http://x/" /\ M.dir = "/d/"
                /\ M.max \in {4096, TOP} /\ M.base \in {"%u.gz", "%08u.warc.gz"}
\* and there is such a thing
Some == ~(M.ok /\ Len(cs) = N)

ASSUME /\ Size("4k") = 4096 /\ Size("0.01M") = 10486 /\ Size("1e4") = 10000 /\ Size("3.5G") = TOP /\ Size("40000e-1") = 4000
       /\ Size("4.k") = 4096 /\ Size(".5k") = 512 /\ Size("+5") = 5 /\ Size("12.5kB") = 12800
       /\ \A s \in {"", "x", "-1", "5kk", "5e", ".", "k", "1.2.3", "5%", "5 k"} : Size(s) = Fail
       /\ SiloName("%08u.gz", 12) = "00000012.gz" /\ SiloName("a%%%4u%%b", 7) = "a%   7%b"
       /\ NameOK("%u") /\ ~NameOK("%%u") /\ ~NameOK("%u%u") /\ ~NameOK("%s") /\ ~NameOK("x/%u") /\ ~NameOK("") /\ ~NameOK("%8")
=============================================================================

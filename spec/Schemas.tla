------------------------------ MODULE Schemas -------------------------------
(* The structs of harness/src/structs.rs. Generated by tools/mkstructs.py. *)

S0 == <<
    [key |-> << 118,97,108,117,101 >>, ty |-> "i128", sub |-> <<>>]
>>
S1 == <<
    [key |-> << 118,97,108,117,101 >>, ty |-> "u128", sub |-> <<>>]
>>
S2 == <<
    [key |-> << 118,97,108,117,101 >>, ty |-> "bool", sub |-> <<>>]
>>
S3 == <<
    [key |-> << 118,97,108,117,101 >>, ty |-> "bytes", sub |-> <<>>]
>>
S4 == <<
    [key |-> << 118,97,108,117,101 >>, ty |-> "str", sub |-> <<>>]
>>
S5 == <<
    [key |-> << 118,97,108,117,101 >>, ty |-> "strs", sub |-> <<>>]
>>
S6 == <<
    [key |-> << 118,97,108,117,101 >>, ty |-> "oi", sub |-> <<>>]
>>
S7 == <<
    [key |-> << 118,97,108,117,101 >>, ty |-> "ou", sub |-> <<>>]
>>
S8 == <<
    [key |-> << 118,97,108,117,101 >>, ty |-> "os", sub |-> <<>>]
>>
S9 == <<
    [key |-> << 118,97,108,117,101 >>, ty |-> "ri", sub |-> <<>>]
>>
S10 == <<
    [key |-> << 118,97,108,117,101 >>, ty |-> "ru", sub |-> <<>>]
>>
S11 == <<
    [key |-> << 107,101,121,45,105,49,50,56 >>, ty |-> "i128", sub |-> <<>>],
    [key |-> << 107,101,121,45,117,49,50,56 >>, ty |-> "u128", sub |-> <<>>],
    [key |-> << 107,101,121,45,98,111,111,108 >>, ty |-> "bool", sub |-> <<>>],
    [key |-> << 107,101,121,45,98,121,116,101,115 >>, ty |-> "bytes", sub |-> <<>>],
    [key |-> << 107,101,121,45,115,116,114 >>, ty |-> "str", sub |-> <<>>],
    [key |-> << 107,101,121,45,115,116,114,115 >>, ty |-> "strs", sub |-> <<>>],
    [key |-> << 107,101,121,45,111,105 >>, ty |-> "oi", sub |-> <<>>],
    [key |-> << 107,101,121,45,111,117 >>, ty |-> "ou", sub |-> <<>>],
    [key |-> << 107,101,121,45,111,115 >>, ty |-> "os", sub |-> <<>>],
    [key |-> << 107,101,121,45,114,105 >>, ty |-> "ri", sub |-> <<>>],
    [key |-> << 107,101,121,45,114,117 >>, ty |-> "ru", sub |-> <<>>]
>>
S12 == <<
    [key |-> << 98 >>, ty |-> "i128", sub |-> <<>>],
    [key |-> << 97 >>, ty |-> "i128", sub |-> <<>>]
>>
S13 == <<
    [key |-> << 98 >>, ty |-> "bool", sub |-> <<>>],
    [key |-> << 97 >>, ty |-> "bool", sub |-> <<>>]
>>
S14 == <<
    [key |-> << 98 >>, ty |-> "str", sub |-> <<>>],
    [key |-> << 97 >>, ty |-> "str", sub |-> <<>>]
>>
S15 == <<
    [key |-> << 98 >>, ty |-> "oi", sub |-> <<>>],
    [key |-> << 97 >>, ty |-> "oi", sub |-> <<>>]
>>
S16 == <<
    [key |-> << 98 >>, ty |-> "ru", sub |-> <<>>],
    [key |-> << 97 >>, ty |-> "ru", sub |-> <<>>]
>>
S17 == <<
    [key |-> << 98 >>, ty |-> "bytes", sub |-> <<>>],
    [key |-> << 97 >>, ty |-> "bytes", sub |-> <<>>]
>>
S18 == <<
    [key |-> << 98 >>, ty |-> "oi", sub |-> <<>>],
    [key |-> << 195,169 >>, ty |-> "i128", sub |-> <<>>],
    [key |-> << 107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107 >>, ty |-> "bool", sub |-> <<>>],
    [key |-> << 111,107 >>, ty |-> "bool", sub |-> <<>>]
>>
S19 == <<
    [key |-> << 97,97 >>, ty |-> "os", sub |-> <<>>],
    [key |-> << 111,107 >>, ty |-> "oi", sub |-> <<>>],
    [key |-> << 110,111,110,101 >>, ty |-> "ou", sub |-> <<>>],
    [key |-> << 97 >>, ty |-> "i128", sub |-> <<>>],
    [key |-> << 98 >>, ty |-> "bytes", sub |-> <<>>]
>>
S20 == <<
    [key |-> << 97,97 >>, ty |-> "ou", sub |-> <<>>],
    [key |-> << 110 >>, ty |-> "bytes", sub |-> <<>>]
>>
S21 == <<
    [key |-> << 107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107,107 >>, ty |-> "i128", sub |-> <<>>],
    [key |-> << 110 >>, ty |-> "ri", sub |-> <<>>],
    [key |-> << 114,101,115,112,111,110,115,101 >>, ty |-> "oi", sub |-> <<>>],
    [key |-> << 107,63 >>, ty |-> "u128", sub |-> <<>>]
>>
S22 == <<
    [key |-> << 105,110,110,101,114 >>, ty |-> "sub", sub |-> S0]
>>
S23 == <<
    [key |-> << 108 >>, ty |-> "sub", sub |-> S1],
    [key |-> << 114 >>, ty |-> "sub", sub |-> S1]
>>
S24 == <<
    [key |-> << 100,101,101,112 >>, ty |-> "sub", sub |-> S22],
    [key |-> << 118 >>, ty |-> "bool", sub |-> <<>>]
>>
S25 == <<
    [key |-> << 116,117,112,108,101 >>, ty |-> "sub", sub |-> S16],
    [key |-> << 111,107 >>, ty |-> "bool", sub |-> <<>>],
    [key |-> << 97,46,98 >>, ty |-> "sub", sub |-> S10],
    [key |-> << 65 >>, ty |-> "sub", sub |-> S13]
>>
S26 == <<
    [key |-> << 114,101,115,112,111,110,115,101 >>, ty |-> "sub", sub |-> S16],
    [key |-> << 97 >>, ty |-> "bool", sub |-> <<>>],
    [key |-> << 111,119,110,101,114,45,105,100,33 >>, ty |-> "sub", sub |-> S3],
    [key |-> << 110,97,109,101 >>, ty |-> "u128", sub |-> <<>>]
>>
S27 == <<
    [key |-> << 110 >>, ty |-> "sub", sub |-> S17],
    [key |-> << 111,119,110,101,114,45,105,100,33 >>, ty |-> "u128", sub |-> <<>>]
>>
S28 == <<
    [key |-> << 97,97 >>, ty |-> "bytes", sub |-> <<>>],
    [key |-> << 111,119,110,101,114,45,105,100,33 >>, ty |-> "ou", sub |-> <<>>],
    [key |-> << 65 >>, ty |-> "bool", sub |-> <<>>],
    [key |-> << 195,169 >>, ty |-> "bytes", sub |-> <<>>]
>>
Schema(n) ==
    CASE n = "S0" -> S0
      [] n = "S1" -> S1
      [] n = "S2" -> S2
      [] n = "S3" -> S3
      [] n = "S4" -> S4
      [] n = "S5" -> S5
      [] n = "S6" -> S6
      [] n = "S7" -> S7
      [] n = "S8" -> S8
      [] n = "S9" -> S9
      [] n = "S10" -> S10
      [] n = "S11" -> S11
      [] n = "S12" -> S12
      [] n = "S13" -> S13
      [] n = "S14" -> S14
      [] n = "S15" -> S15
      [] n = "S16" -> S16
      [] n = "S17" -> S17
      [] n = "S18" -> S18
      [] n = "S19" -> S19
      [] n = "S20" -> S20
      [] n = "S21" -> S21
      [] n = "S22" -> S22
      [] n = "S23" -> S23
      [] n = "S24" -> S24
      [] n = "S25" -> S25
      [] n = "S26" -> S26
      [] n = "S27" -> S27
      [] n = "S28" -> S28
SchemaNames == << "S0", "S1", "S2", "S3", "S4", "S5", "S6", "S7", "S8", "S9", "S10", "S11", "S12", "S13", "S14", "S15", "S16", "S17", "S18", "S19", "S20", "S21", "S22", "S23", "S24", "S25", "S26", "S27", "S28" >>
=============================================================================

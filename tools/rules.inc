/* &embedded_0 : budget */ {231, 1, {232}},
  /* &embedded_0? : &embedded_0 */ {230, 1, {231}},
  /* &embedded_0? :  */ {230, 0, {}},
  /* task : &embedded_0? sentence */ {233, 2, {230, 229}},
  /* &embedded_1 : term_nonvar */ {226, 1, {228}},
  /* &embedded_1 : statement */ {226, 1, {227}},
  /* sentence : &embedded_1 .' &embedded_2? &embedded_3? */ {229, 4, {226, 116, 223, 220}},
  /* &embedded_2 : tense */ {224, 1, {225}},
  /* &embedded_2? : &embedded_2 */ {223, 1, {224}},
  /* &embedded_2? :  */ {223, 0, {}},
  /* &embedded_3 : truth */ {221, 1, {222}},
  /* &embedded_3? : &embedded_3 */ {220, 1, {221}},
  /* &embedded_3? :  */ {220, 0, {}},
  /* &embedded_4 : term_nonvar */ {219, 1, {228}},
  /* &embedded_4 : statement */ {219, 1, {227}},
  /* sentence : &embedded_4 ?' &embedded_5? */ {229, 3, {219, 115, 217}},
  /* &embedded_5 : tense */ {218, 1, {225}},
  /* &embedded_5? : &embedded_5 */ {217, 1, {218}},
  /* &embedded_5? :  */ {217, 0, {}},
  /* &embedded_6 : term_nonvar */ {216, 1, {228}},
  /* &embedded_6 : statement */ {216, 1, {227}},
  /* sentence : &embedded_6 !' &embedded_7? &embedded_8? */ {229, 4, {216, 114, 214, 211}},
  /* &embedded_7 : tense */ {215, 1, {225}},
  /* &embedded_7? : &embedded_7 */ {214, 1, {215}},
  /* &embedded_7? :  */ {214, 0, {}},
  /* &embedded_8 : desire */ {212, 1, {213}},
  /* &embedded_8? : &embedded_8 */ {211, 1, {212}},
  /* &embedded_8? :  */ {211, 0, {}},
  /* &embedded_9 : term_nonvar */ {210, 1, {228}},
  /* &embedded_9 : statement */ {210, 1, {227}},
  /* sentence : &embedded_9 @' &embedded_10? */ {229, 3, {210, 113, 208}},
  /* &embedded_10 : tense */ {209, 1, {225}},
  /* &embedded_10? : &embedded_10 */ {208, 1, {209}},
  /* &embedded_10? :  */ {208, 0, {}},
  /* &embedded_11 : <' term copula term >' */ {205, 5, {98, 207, 206, 207, 97}},
  /* &embedded_11 : (' term copula term )' */ {205, 5, {106, 207, 206, 207, 105}},
  /* statement : &embedded_11 */ {227, 1, {205}},
  /* statement : (' op &embedded_12* )' */ {227, 4, {106, 204, 201, 105}},
  /* &embedded_12 : ,' term */ {203, 2, {104, 207}},
  /* &embedded_12+ : &embedded_12+ &embedded_12 */ {202, 2, {202, 203}},
  /* &embedded_12+ : &embedded_12 */ {202, 1, {203}},
  /* &embedded_12* : &embedded_12+ */ {201, 1, {202}},
  /* &embedded_12* :  */ {201, 0, {}},
  /* statement : word (' term &embedded_13* )' */ {227, 5, {200, 106, 207, 197, 105}},
  /* &embedded_13 : ,' term */ {199, 2, {104, 207}},
  /* &embedded_13+ : &embedded_13+ &embedded_13 */ {198, 2, {198, 199}},
  /* &embedded_13+ : &embedded_13 */ {198, 1, {199}},
  /* &embedded_13* : &embedded_13+ */ {197, 1, {198}},
  /* &embedded_13* :  */ {197, 0, {}},
  /* copula : -->' */ {206, 1, {96}},
  /* copula : <->' */ {206, 1, {95}},
  /* copula : {--' */ {206, 1, {94}},
  /* copula : --]' */ {206, 1, {93}},
  /* copula : {-]' */ {206, 1, {92}},
  /* copula : ==>' */ {206, 1, {91}},
  /* copula : =/>' */ {206, 1, {90}},
  /* copula : =|>' */ {206, 1, {89}},
  /* copula : =\\>' */ {206, 1, {88}},
  /* copula : <=>' */ {206, 1, {87}},
  /* copula : </>' */ {206, 1, {86}},
  /* copula : <|>' */ {206, 1, {85}},
  /* term : variable */ {207, 1, {196}},
  /* term : term_nonvar */ {207, 1, {228}},
  /* term_nonvar : interval */ {228, 1, {195}},
  /* term_nonvar : word */ {228, 1, {200}},
  /* term_nonvar : compound_term */ {228, 1, {194}},
  /* term_nonvar : statement */ {228, 1, {227}},
  /* term_nonvar : op */ {228, 1, {204}},
  /* op : ^' word */ {204, 2, {99, 200}},
  /* interval : +' integer' */ {195, 2, {68, 111}},
  /* compound_term : set */ {194, 1, {193}},
  /* compound_term : multi */ {194, 1, {192}},
  /* compound_term : single */ {194, 1, {191}},
  /* compound_term : ext_image */ {194, 1, {190}},
  /* compound_term : int_image */ {194, 1, {189}},
  /* compound_term : negation */ {194, 1, {188}},
  /* &embedded_14 : int_set */ {185, 1, {187}},
  /* &embedded_14 : ext_set */ {185, 1, {186}},
  /* set : &embedded_14 */ {193, 1, {185}},
  /* int_set : con_int_set term &embedded_15* ]' */ {187, 4, {184, 207, 181, 70}},
  /* &embedded_15 : ,' term */ {183, 2, {104, 207}},
  /* &embedded_15+ : &embedded_15+ &embedded_15 */ {182, 2, {182, 183}},
  /* &embedded_15+ : &embedded_15 */ {182, 1, {183}},
  /* &embedded_15* : &embedded_15+ */ {181, 1, {182}},
  /* &embedded_15* :  */ {181, 0, {}},
  /* ext_set : con_ext_set term &embedded_16* }' */ {186, 4, {180, 207, 177, 72}},
  /* &embedded_16 : ,' term */ {179, 2, {104, 207}},
  /* &embedded_16+ : &embedded_16+ &embedded_16 */ {178, 2, {178, 179}},
  /* &embedded_16+ : &embedded_16 */ {178, 1, {179}},
  /* &embedded_16* : &embedded_16+ */ {177, 1, {178}},
  /* &embedded_16* :  */ {177, 0, {}},
  /* &embedded_17 : con_negation term */ {175, 2, {176, 207}},
  /* &embedded_17 : (' con_negation ,' term )' */ {175, 5, {106, 176, 104, 207, 105}},
  /* negation : &embedded_17 */ {188, 1, {175}},
  /* int_image : (' con_int_image ,' term &embedded_18* )' */ {189, 6, {106, 174, 104, 207, 171, 105}},
  /* &embedded_18 : ,' term */ {173, 2, {104, 207}},
  /* &embedded_18+ : &embedded_18+ &embedded_18 */ {172, 2, {172, 173}},
  /* &embedded_18+ : &embedded_18 */ {172, 1, {173}},
  /* &embedded_18* : &embedded_18+ */ {171, 1, {172}},
  /* &embedded_18* :  */ {171, 0, {}},
  /* ext_image : (' con_ext_image ,' term &embedded_19* )' */ {190, 6, {106, 170, 104, 207, 167, 105}},
  /* &embedded_19 : ,' term */ {169, 2, {104, 207}},
  /* &embedded_19+ : &embedded_19+ &embedded_19 */ {168, 2, {168, 169}},
  /* &embedded_19+ : &embedded_19 */ {168, 1, {169}},
  /* &embedded_19* : &embedded_19+ */ {167, 1, {168}},
  /* &embedded_19* :  */ {167, 0, {}},
  /* multi : (' multi_infix_expr )' */ {192, 3, {106, 166, 105}},
  /* multi : (' term &embedded_20+ )' */ {192, 4, {106, 207, 164, 105}},
  /* &embedded_20 : ,' term */ {165, 2, {104, 207}},
  /* &embedded_20+ : &embedded_20+ &embedded_20 */ {164, 2, {164, 165}},
  /* &embedded_20+ : &embedded_20 */ {164, 1, {165}},
  /* &embedded_23 : (' con_multi ,' term &embedded_21+ )' */ {156, 6, {106, 163, 104, 207, 161, 105}},
  /* &embedded_21 : ,' term */ {162, 2, {104, 207}},
  /* &embedded_21+ : &embedded_21+ &embedded_21 */ {161, 2, {161, 162}},
  /* &embedded_21+ : &embedded_21 */ {161, 1, {162}},
  /* &embedded_23 : (' con_product ,' term &embedded_22* )' */ {156, 6, {106, 160, 104, 207, 157, 105}},
  /* &embedded_22 : ,' term */ {159, 2, {104, 207}},
  /* &embedded_22+ : &embedded_22+ &embedded_22 */ {158, 2, {158, 159}},
  /* &embedded_22+ : &embedded_22 */ {158, 1, {159}},
  /* &embedded_22* : &embedded_22+ */ {157, 1, {158}},
  /* &embedded_22* :  */ {157, 0, {}},
  /* multi : &embedded_23 */ {192, 1, {156}},
  /* single : (' con_single ,' &embedded_24 ,' &embedded_25 )' */ {191, 7, {106, 155, 104, 154, 104, 153, 105}},
  /* &embedded_24 : term */ {154, 1, {207}},
  /* &embedded_24 : multi_infix_expr */ {154, 1, {166}},
  /* &embedded_25 : term */ {153, 1, {207}},
  /* &embedded_25 : multi_infix_expr */ {153, 1, {166}},
  /* single : (' &embedded_26 con_single &embedded_27 )' */ {191, 5, {106, 152, 155, 151, 105}},
  /* &embedded_26 : term */ {152, 1, {207}},
  /* &embedded_26 : multi_infix_expr */ {152, 1, {166}},
  /* &embedded_27 : term */ {151, 1, {207}},
  /* &embedded_27 : multi_infix_expr */ {151, 1, {166}},
  /* multi_infix_expr : multi_extint_expr */ {166, 1, {150}},
  /* multi_infix_expr : multi_intint_expr */ {166, 1, {149}},
  /* multi_infix_expr : multi_parallel_expr */ {166, 1, {148}},
  /* multi_infix_expr : multi_sequential_expr */ {166, 1, {147}},
  /* multi_infix_expr : multi_conj_expr */ {166, 1, {146}},
  /* multi_infix_expr : multi_disj_expr */ {166, 1, {145}},
  /* multi_infix_expr : multi_prod_expr */ {166, 1, {144}},
  /* multi_prod_expr : term &embedded_28+ */ {144, 2, {207, 142}},
  /* &embedded_28 : *' term */ {143, 2, {81, 207}},
  /* &embedded_28+ : &embedded_28+ &embedded_28 */ {142, 2, {142, 143}},
  /* &embedded_28+ : &embedded_28 */ {142, 1, {143}},
  /* multi_disj_expr : term &embedded_29+ */ {145, 2, {207, 140}},
  /* &embedded_29 : ||' term */ {141, 2, {80, 207}},
  /* &embedded_29+ : &embedded_29+ &embedded_29 */ {140, 2, {140, 141}},
  /* &embedded_29+ : &embedded_29 */ {140, 1, {141}},
  /* multi_conj_expr : term &embedded_30+ */ {146, 2, {207, 138}},
  /* &embedded_30 : &&' term */ {139, 2, {79, 207}},
  /* &embedded_30+ : &embedded_30+ &embedded_30 */ {138, 2, {138, 139}},
  /* &embedded_30+ : &embedded_30 */ {138, 1, {139}},
  /* multi_sequential_expr : term &embedded_31+ */ {147, 2, {207, 136}},
  /* &embedded_31 : &/' term */ {137, 2, {78, 207}},
  /* &embedded_31+ : &embedded_31+ &embedded_31 */ {136, 2, {136, 137}},
  /* &embedded_31+ : &embedded_31 */ {136, 1, {137}},
  /* multi_parallel_expr : term &embedded_32+ */ {148, 2, {207, 134}},
  /* &embedded_32 : &|' term */ {135, 2, {77, 207}},
  /* &embedded_32+ : &embedded_32+ &embedded_32 */ {134, 2, {134, 135}},
  /* &embedded_32+ : &embedded_32 */ {134, 1, {135}},
  /* multi_intint_expr : term &embedded_33+ */ {149, 2, {207, 132}},
  /* &embedded_33 : |' term */ {133, 2, {76, 207}},
  /* &embedded_33+ : &embedded_33+ &embedded_33 */ {132, 2, {132, 133}},
  /* &embedded_33+ : &embedded_33 */ {132, 1, {133}},
  /* multi_extint_expr : term &embedded_34+ */ {150, 2, {207, 130}},
  /* &embedded_34 : &' term */ {131, 2, {75, 207}},
  /* &embedded_34+ : &embedded_34+ &embedded_34 */ {130, 2, {130, 131}},
  /* &embedded_34+ : &embedded_34 */ {130, 1, {131}},
  /* con_multi : &&' */ {163, 1, {79}},
  /* con_multi : ||' */ {163, 1, {80}},
  /* con_multi : &|' */ {163, 1, {77}},
  /* con_multi : &/' */ {163, 1, {78}},
  /* con_multi : |' */ {163, 1, {76}},
  /* con_multi : &' */ {163, 1, {75}},
  /* con_product : *' */ {160, 1, {81}},
  /* con_single : -' */ {155, 1, {74}},
  /* con_single : ~' */ {155, 1, {73}},
  /* con_int_set : [' */ {184, 1, {69}},
  /* con_ext_set : {' */ {180, 1, {71}},
  /* con_negation : --' */ {176, 1, {84}},
  /* con_int_image : \\' */ {174, 1, {83}},
  /* con_ext_image : /' */ {170, 1, {82}},
  /* variable : $' word */ {196, 2, {103, 200}},
  /* variable : #' word */ {196, 2, {102, 200}},
  /* variable : ?' word */ {196, 2, {115, 200}},
  /* tense : :!' integer' :' */ {225, 3, {112, 111, 110}},
  /* tense : :/:' */ {225, 1, {109}},
  /* tense : :|:' */ {225, 1, {108}},
  /* tense : :\\:' */ {225, 1, {107}},
  /* desire : truth */ {213, 1, {222}},
  /* truth : %' frequency' &embedded_36? %' */ {222, 4, {67, 66, 126, 67}},
  /* &embedded_36 : ;' confidence' &embedded_35? */ {127, 3, {65, 64, 128}},
  /* &embedded_35 : ;' k_evidence' */ {129, 2, {65, 63}},
  /* &embedded_35? : &embedded_35 */ {128, 1, {129}},
  /* &embedded_35? :  */ {128, 0, {}},
  /* &embedded_36? : &embedded_36 */ {126, 1, {127}},
  /* &embedded_36? :  */ {126, 0, {}},
  /* budget : $' priority' &embedded_38? $' */ {232, 4, {103, 62, 122, 103}},
  /* &embedded_38 : ;' durability' &embedded_37? */ {123, 3, {65, 61, 124}},
  /* &embedded_37 : ;' quality' */ {125, 2, {65, 60}},
  /* &embedded_37? : &embedded_37 */ {124, 1, {125}},
  /* &embedded_37? :  */ {124, 0, {}},
  /* &embedded_38? : &embedded_38 */ {122, 1, {123}},
  /* &embedded_38? :  */ {122, 0, {}},
  /* &embedded_39 : string' */ {121, 1, {101}},
  /* &embedded_39 : string_raw' */ {121, 1, {100}},
  /* word : &embedded_39 */ {200, 1, {121}},
  /* task' : task ~&eof */ {120, 2, {233, 0}},
  /* &whitespace : '\t ' */ {119, 1, {58}},
  /* &whitespace+ : &whitespace+ &whitespace */ {118, 2, {118, 119}},
  /* &whitespace+ : &whitespace */ {118, 1, {119}},
  /* &whitespace* : &whitespace+ */ {117, 1, {118}},
  /* &whitespace* :  */ {117, 0, {}},
  /* .' : "." &whitespace* */ {116, 2, {55, 117}},
  /* ?' : "?" &whitespace* */ {115, 2, {54, 117}},
  /* !' : "!" &whitespace* */ {114, 2, {53, 117}},
  /* @' : "@" &whitespace* */ {113, 2, {52, 117}},
  /* :!' : ":!" &whitespace* */ {112, 2, {9, 117}},
  /* integer' : @integer &whitespace* */ {111, 2, {57, 117}},
  /* :' : ":" &whitespace* */ {110, 2, {8, 117}},
  /* :/:' : ":/:" &whitespace* */ {109, 2, {7, 117}},
  /* :|:' : ":|:" &whitespace* */ {108, 2, {5, 117}},
  /* :\\:' : ":\\:" &whitespace* */ {107, 2, {4, 117}},
  /* (' : "(" &whitespace* */ {106, 2, {49, 117}},
  /* )' : ")" &whitespace* */ {105, 2, {48, 117}},
  /* ,' : "," &whitespace* */ {104, 2, {47, 117}},
  /* $' : "$" &whitespace* */ {103, 2, {11, 117}},
  /* #' : "#" &whitespace* */ {102, 2, {10, 117}},
  /* string' : @string &whitespace* */ {101, 2, {6, 117}},
  /* string_raw' : @string_raw &whitespace* */ {100, 2, {3, 117}},
  /* ^' : "^" &whitespace* */ {99, 2, {32, 117}},
  /* <' : "<" &whitespace* */ {98, 2, {51, 117}},
  /* >' : ">" &whitespace* */ {97, 2, {50, 117}},
  /* -->' : "-->" &whitespace* */ {96, 2, {46, 117}},
  /* <->' : "<->" &whitespace* */ {95, 2, {45, 117}},
  /* {--' : "{--" &whitespace* */ {94, 2, {44, 117}},
  /* --]' : "--]" &whitespace* */ {93, 2, {43, 117}},
  /* {-]' : "{-]" &whitespace* */ {92, 2, {42, 117}},
  /* ==>' : "==>" &whitespace* */ {91, 2, {41, 117}},
  /* =/>' : "=/>" &whitespace* */ {90, 2, {40, 117}},
  /* =|>' : "=|>" &whitespace* */ {89, 2, {39, 117}},
  /* =\\>' : "=\\>" &whitespace* */ {88, 2, {38, 117}},
  /* <=>' : "<=>" &whitespace* */ {87, 2, {37, 117}},
  /* </>' : "</>" &whitespace* */ {86, 2, {36, 117}},
  /* <|>' : "<|>" &whitespace* */ {85, 2, {33, 117}},
  /* --' : "--" &whitespace* */ {84, 2, {14, 117}},
  /* \\' : "\\" &whitespace* */ {83, 2, {13, 117}},
  /* /' : "/" &whitespace* */ {82, 2, {12, 117}},
  /* *' : "*" &whitespace* */ {81, 2, {25, 117}},
  /* ||' : "||" &whitespace* */ {80, 2, {24, 117}},
  /* &&' : "&&" &whitespace* */ {79, 2, {23, 117}},
  /* &/' : "&/" &whitespace* */ {78, 2, {22, 117}},
  /* &|' : "&|" &whitespace* */ {77, 2, {21, 117}},
  /* |' : "|" &whitespace* */ {76, 2, {20, 117}},
  /* &' : "&" &whitespace* */ {75, 2, {19, 117}},
  /* -' : "-" &whitespace* */ {74, 2, {18, 117}},
  /* ~' : "~" &whitespace* */ {73, 2, {17, 117}},
  /* }' : "}" &whitespace* */ {72, 2, {26, 117}},
  /* {' : "{" &whitespace* */ {71, 2, {15, 117}},
  /* ]' : "]" &whitespace* */ {70, 2, {27, 117}},
  /* [' : "[" &whitespace* */ {69, 2, {16, 117}},
  /* +' : "+" &whitespace* */ {68, 2, {28, 117}},
  /* %' : "%" &whitespace* */ {67, 2, {2, 117}},
  /* frequency' : @frequency &whitespace* */ {66, 2, {56, 117}},
  /* ;' : ";" &whitespace* */ {65, 2, {1, 117}},
  /* confidence' : @confidence &whitespace* */ {64, 2, {35, 117}},
  /* k_evidence' : @k_evidence &whitespace* */ {63, 2, {34, 117}},
  /* priority' : @priority &whitespace* */ {62, 2, {31, 117}},
  /* durability' : @durability &whitespace* */ {61, 2, {30, 117}},
  /* quality' : @quality &whitespace* */ {60, 2, {29, 117}},
  /* task'' : &whitespace* task' */ {59, 2, {117, 120}}
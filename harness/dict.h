// An arbitrary name dictionary: in the verifier its content is unbounded (every lookup of a key or name not looked up before decides
// it freely); what is assumed about it is said at the key and name in question.
#ifndef DICT_H
#define DICT_H
#include "verif.h"
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/include/Operation.h"
using INTERPRETER::Interpreter; using TERM::pTerm; using TERM::Term; typedef std::string S;
#ifdef VF_MODEL
static Interpreter *cur;
extern "C" void *__vf_any_ptr() { pTerm *p = new pTerm(new Term(), cur); long n = nd_int("references", 1, 1000000); *(long*)p->_c = n; (*p)->is_operation = nd_bool("is operation"); return p; }
#endif
#endif

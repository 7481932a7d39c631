------------------------------ MODULE Signals ------------------------------
(* The signals an architecture shows (debugger and log), stage by stage, and *)
(* how a displayed value o = [name, k, w, b, s, c] is compared with the      *)
(* model's: k = "b" truth value, "w" word, "c" condition codes, "s" text.    *)
EXTENDS Seq

Bools == {"instr_valid", "set_cc", "e_cnd", "cnd", "mem_read", "mem_write", "prog_term", "f_stall", "d_stall", "d_bubble",
          "e_bubble", "m_bubble", "w_stall", "f_bubble", "e_stall", "m_stall", "w_bubble"}
Texts == {"f_stat", "d_stat", "e_stat", "m_stat", "prog_stat", "stat"}

ValueIs(o, x) ==
  IF o.name \in Bools THEN o.k = "b" /\ o.b = x
  ELSE IF o.name \in Texts THEN o.k = "s" /\ o.s = x
  ELSE IF o.name = "cc" THEN o.k = "c" /\ o.c = <<x.zf, x.sf, x.of>>
  ELSE o.k = "w" /\ o.w = x

\* signals each stage must show
Must(arch, k) ==
  IF arch = "pipe_std"
  THEN <<{"f_pc", "f_icode", "f_ifun", "f_stat", "f_valP", "f_pred_pc"},
         {"d_srcA", "d_srcB", "d_dstE", "d_dstM", "d_valA", "d_valB", "d_icode", "d_stat"},
         {"aluA", "aluB", "alufun", "set_cc", "e_valE", "cc", "e_cnd", "e_dstE", "e_dstM", "e_icode", "e_stat"},
         {"mem_addr", "mem_read", "mem_write", "mem_data", "m_stat", "m_icode", "m_valM", "m_valE"},
         {"w_dstE", "w_valE", "w_dstM", "w_valM", "prog_stat", "prog_term"},
         {"f_stall", "d_stall", "d_bubble", "e_bubble", "m_bubble", "w_stall"}>>[k]
  ELSE <<{"pc", "icode", "ifun", "instr_valid", "valP"},
         {"srcA", "srcB", "dstE", "dstM"},
         {"aluA", "aluB", "alufun", "set_cc", "valE", "cc", "cnd"},
         {"mem_read", "mem_write", "mem_addr", "mem_data", "valM", "stat", "prog_term"},
         {"new_pc"}>>[k]
NStages(arch) == CASE arch = "pipe_std" -> 6 [] arch = "seq_std" -> 5 [] OTHER -> 4
AllMust(arch) == UNION {Must(arch, k) : k \in 1..NStages(arch)}
=============================================================================

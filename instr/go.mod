module verif.local/instr

go 1.22.0

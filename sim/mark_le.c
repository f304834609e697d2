__asm__(".text\n.globl simlib_end_marker\nsimlib_end_marker:\n nop\n.section .note.GNU-stack,\"\",@progbits\n");

__asm__(".text\n.globl simlib_begin_marker\nsimlib_begin_marker:\n nop\n.section .note.GNU-stack,\"\",@progbits\n");

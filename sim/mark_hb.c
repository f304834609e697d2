__asm__(".text\n.globl simhar_begin_marker\nsimhar_begin_marker:\n nop\n.section .note.GNU-stack,\"\",@progbits\n");

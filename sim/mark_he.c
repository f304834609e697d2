__asm__(".text\n.globl simhar_end_marker\nsimhar_end_marker:\n nop\n.section .note.GNU-stack,\"\",@progbits\n");

# Written by tools/gen_abi.py.
.pushsection .data.rel.ro.vabi,"aw",@progbits
.balign 8
.globl vabi_slots
vabi_slots:
.weak vb___udivsi3
.quad vb___udivsi3
.weak vb___umodsi3
.quad vb___umodsi3
.weak vb___udivmodsi4
.quad vb___udivmodsi4
.weak vb___udivdi3
.quad vb___udivdi3
.weak vb___umoddi3
.quad vb___umoddi3
.weak vb___udivmoddi4
.quad vb___udivmoddi4
.weak vb___udivti3
.quad vb___udivti3
.weak vb___umodti3
.quad vb___umodti3
.weak vb___udivmodti4
.quad vb___udivmodti4
.weak vb___divsi3
.quad vb___divsi3
.weak vb___modsi3
.quad vb___modsi3
.weak vb___divmodsi4
.quad vb___divmodsi4
.weak vb___divdi3
.quad vb___divdi3
.weak vb___moddi3
.quad vb___moddi3
.weak vb___divmoddi4
.quad vb___divmoddi4
.weak vb___divti3
.quad vb___divti3
.weak vb___modti3
.quad vb___modti3
.weak vb___divmodti4
.quad vb___divmodti4
.weak vb___muldi3
.quad vb___muldi3
.weak vb___multi3
.quad vb___multi3
.weak vb___mulosi4
.quad vb___mulosi4
.weak vb___mulodi4
.quad vb___mulodi4
.weak vb___muloti4
.quad vb___muloti4
.weak vb___rust_i128_mulo
.quad vb___rust_i128_mulo
.weak vb___rust_u128_mulo
.quad vb___rust_u128_mulo
.weak vb___rust_i128_add
.quad vb___rust_i128_add
.weak vb___rust_i128_addo
.quad vb___rust_i128_addo
.weak vb___rust_u128_add
.quad vb___rust_u128_add
.weak vb___rust_u128_addo
.quad vb___rust_u128_addo
.weak vb___rust_i128_sub
.quad vb___rust_i128_sub
.weak vb___rust_i128_subo
.quad vb___rust_i128_subo
.weak vb___rust_u128_sub
.quad vb___rust_u128_sub
.weak vb___rust_u128_subo
.quad vb___rust_u128_subo
.weak vb___ashlsi3
.quad vb___ashlsi3
.weak vb___ashldi3
.quad vb___ashldi3
.weak vb___ashlti3
.quad vb___ashlti3
.weak vb___ashrsi3
.quad vb___ashrsi3
.weak vb___ashrdi3
.quad vb___ashrdi3
.weak vb___ashrti3
.quad vb___ashrti3
.weak vb___lshrsi3
.quad vb___lshrsi3
.weak vb___lshrdi3
.quad vb___lshrdi3
.weak vb___lshrti3
.quad vb___lshrti3
.weak vb___clzsi2
.quad vb___clzsi2
.weak vb___clzdi2
.quad vb___clzdi2
.weak vb___clzti2
.quad vb___clzti2
.weak vb___ctzsi2
.quad vb___ctzsi2
.weak vb___ctzdi2
.quad vb___ctzdi2
.weak vb___ctzti2
.quad vb___ctzti2
.weak vb___bswapsi2
.quad vb___bswapsi2
.weak vb___bswapdi2
.quad vb___bswapdi2
.weak vb___bswapti2
.quad vb___bswapti2
.weak vb___addhf3
.quad vb___addhf3
.weak vb___addsf3
.quad vb___addsf3
.weak vb___adddf3
.quad vb___adddf3
.weak vb___addtf3
.quad vb___addtf3
.weak vb___subhf3
.quad vb___subhf3
.weak vb___subsf3
.quad vb___subsf3
.weak vb___subdf3
.quad vb___subdf3
.weak vb___subtf3
.quad vb___subtf3
.weak vb___mulhf3
.quad vb___mulhf3
.weak vb___mulsf3
.quad vb___mulsf3
.weak vb___muldf3
.quad vb___muldf3
.weak vb___multf3
.quad vb___multf3
.weak vb___divsf3
.quad vb___divsf3
.weak vb___divdf3
.quad vb___divdf3
.weak vb___divtf3
.quad vb___divtf3
.weak vb___lehf2
.quad vb___lehf2
.weak vb___lesf2
.quad vb___lesf2
.weak vb___ledf2
.quad vb___ledf2
.weak vb___letf2
.quad vb___letf2
.weak vb___gehf2
.quad vb___gehf2
.weak vb___gesf2
.quad vb___gesf2
.weak vb___gedf2
.quad vb___gedf2
.weak vb___getf2
.quad vb___getf2
.weak vb___unordhf2
.quad vb___unordhf2
.weak vb___unordsf2
.quad vb___unordsf2
.weak vb___unorddf2
.quad vb___unorddf2
.weak vb___unordtf2
.quad vb___unordtf2
.weak vb___eqhf2
.quad vb___eqhf2
.weak vb___eqsf2
.quad vb___eqsf2
.weak vb___eqdf2
.quad vb___eqdf2
.weak vb___eqtf2
.quad vb___eqtf2
.weak vb___lthf2
.quad vb___lthf2
.weak vb___ltsf2
.quad vb___ltsf2
.weak vb___ltdf2
.quad vb___ltdf2
.weak vb___lttf2
.quad vb___lttf2
.weak vb___nehf2
.quad vb___nehf2
.weak vb___nesf2
.quad vb___nesf2
.weak vb___nedf2
.quad vb___nedf2
.weak vb___netf2
.quad vb___netf2
.weak vb___gthf2
.quad vb___gthf2
.weak vb___gtsf2
.quad vb___gtsf2
.weak vb___gtdf2
.quad vb___gtdf2
.weak vb___gttf2
.quad vb___gttf2
.weak vb___floatunsisf
.quad vb___floatunsisf
.weak vb___floatsisf
.quad vb___floatsisf
.weak vb___fixunssfsi
.quad vb___fixunssfsi
.weak vb___fixsfsi
.quad vb___fixsfsi
.weak vb___floatundisf
.quad vb___floatundisf
.weak vb___floatdisf
.quad vb___floatdisf
.weak vb___fixunssfdi
.quad vb___fixunssfdi
.weak vb___fixsfdi
.quad vb___fixsfdi
.weak vb___floatuntisf
.quad vb___floatuntisf
.weak vb___floattisf
.quad vb___floattisf
.weak vb___fixunssfti
.quad vb___fixunssfti
.weak vb___fixsfti
.quad vb___fixsfti
.weak vb___floatunsidf
.quad vb___floatunsidf
.weak vb___floatsidf
.quad vb___floatsidf
.weak vb___fixunsdfsi
.quad vb___fixunsdfsi
.weak vb___fixdfsi
.quad vb___fixdfsi
.weak vb___floatundidf
.quad vb___floatundidf
.weak vb___floatdidf
.quad vb___floatdidf
.weak vb___fixunsdfdi
.quad vb___fixunsdfdi
.weak vb___fixdfdi
.quad vb___fixdfdi
.weak vb___floatuntidf
.quad vb___floatuntidf
.weak vb___floattidf
.quad vb___floattidf
.weak vb___fixunsdfti
.quad vb___fixunsdfti
.weak vb___fixdfti
.quad vb___fixdfti
.weak vb___floatunsitf
.quad vb___floatunsitf
.weak vb___floatsitf
.quad vb___floatsitf
.weak vb___fixunstfsi
.quad vb___fixunstfsi
.weak vb___fixtfsi
.quad vb___fixtfsi
.weak vb___floatunditf
.quad vb___floatunditf
.weak vb___floatditf
.quad vb___floatditf
.weak vb___fixunstfdi
.quad vb___fixunstfdi
.weak vb___fixtfdi
.quad vb___fixtfdi
.weak vb___floatuntitf
.quad vb___floatuntitf
.weak vb___floattitf
.quad vb___floattitf
.weak vb___fixunstfti
.quad vb___fixunstfti
.weak vb___fixtfti
.quad vb___fixtfti
.weak vb___extendhfsf2
.quad vb___extendhfsf2
.weak vb___truncsfhf2
.quad vb___truncsfhf2
.weak vb___extendhfdf2
.quad vb___extendhfdf2
.weak vb___truncdfhf2
.quad vb___truncdfhf2
.weak vb___extendhftf2
.quad vb___extendhftf2
.weak vb___trunctfhf2
.quad vb___trunctfhf2
.weak vb___extendsfdf2
.quad vb___extendsfdf2
.weak vb___truncdfsf2
.quad vb___truncdfsf2
.weak vb___extendsftf2
.quad vb___extendsftf2
.weak vb___trunctfsf2
.quad vb___trunctfsf2
.weak vb___extenddftf2
.quad vb___extenddftf2
.weak vb___trunctfdf2
.quad vb___trunctfdf2
.weak vb___gnu_h2f_ieee
.quad vb___gnu_h2f_ieee
.weak vb___gnu_f2h_ieee
.quad vb___gnu_f2h_ieee
.weak vb___powisf2
.quad vb___powisf2
.weak vb___powidf2
.quad vb___powidf2
.weak vb___powitf2
.quad vb___powitf2
.weak vb_memcpy
.quad vb_memcpy
.weak vb_memmove
.quad vb_memmove
.weak vb_memset
.quad vb_memset
.weak vb_memcmp
.quad vb_memcmp
.weak vb_bcmp
.quad vb_bcmp
.weak vb_strlen
.quad vb_strlen
.weak vb_ceilf16
.quad vb_ceilf16
.weak vb_ceilf
.quad vb_ceilf
.weak vb_ceil
.quad vb_ceil
.weak vb_ceilf128
.quad vb_ceilf128
.weak vb_fabsf16
.quad vb_fabsf16
.weak vb_fabsf
.quad vb_fabsf
.weak vb_fabs
.quad vb_fabs
.weak vb_fabsf128
.quad vb_fabsf128
.weak vb_floorf16
.quad vb_floorf16
.weak vb_floorf
.quad vb_floorf
.weak vb_floor
.quad vb_floor
.weak vb_floorf128
.quad vb_floorf128
.weak vb_rintf16
.quad vb_rintf16
.weak vb_rintf
.quad vb_rintf
.weak vb_rint
.quad vb_rint
.weak vb_rintf128
.quad vb_rintf128
.weak vb_roundevenf16
.quad vb_roundevenf16
.weak vb_roundevenf
.quad vb_roundevenf
.weak vb_roundeven
.quad vb_roundeven
.weak vb_roundevenf128
.quad vb_roundevenf128
.weak vb_roundf16
.quad vb_roundf16
.weak vb_roundf
.quad vb_roundf
.weak vb_round
.quad vb_round
.weak vb_roundf128
.quad vb_roundf128
.weak vb_sqrtf16
.quad vb_sqrtf16
.weak vb_sqrtf
.quad vb_sqrtf
.weak vb_sqrt
.quad vb_sqrt
.weak vb_sqrtf128
.quad vb_sqrtf128
.weak vb_truncf16
.quad vb_truncf16
.weak vb_truncf
.quad vb_truncf
.weak vb_trunc
.quad vb_trunc
.weak vb_truncf128
.quad vb_truncf128
.weak vb_copysignf16
.quad vb_copysignf16
.weak vb_copysignf
.quad vb_copysignf
.weak vb_copysign
.quad vb_copysign
.weak vb_copysignf128
.quad vb_copysignf128
.weak vb_fdimf16
.quad vb_fdimf16
.weak vb_fdimf
.quad vb_fdimf
.weak vb_fdim
.quad vb_fdim
.weak vb_fdimf128
.quad vb_fdimf128
.weak vb_fmaxf16
.quad vb_fmaxf16
.weak vb_fmaxf
.quad vb_fmaxf
.weak vb_fmax
.quad vb_fmax
.weak vb_fmaxf128
.quad vb_fmaxf128
.weak vb_fmaximumf16
.quad vb_fmaximumf16
.weak vb_fmaximumf
.quad vb_fmaximumf
.weak vb_fmaximum
.quad vb_fmaximum
.weak vb_fmaximumf128
.quad vb_fmaximumf128
.weak vb_fmaximum_numf16
.quad vb_fmaximum_numf16
.weak vb_fmaximum_numf
.quad vb_fmaximum_numf
.weak vb_fmaximum_num
.quad vb_fmaximum_num
.weak vb_fmaximum_numf128
.quad vb_fmaximum_numf128
.weak vb_fminf16
.quad vb_fminf16
.weak vb_fminf
.quad vb_fminf
.weak vb_fmin
.quad vb_fmin
.weak vb_fminf128
.quad vb_fminf128
.weak vb_fminimumf16
.quad vb_fminimumf16
.weak vb_fminimumf
.quad vb_fminimumf
.weak vb_fminimum
.quad vb_fminimum
.weak vb_fminimumf128
.quad vb_fminimumf128
.weak vb_fminimum_numf16
.quad vb_fminimum_numf16
.weak vb_fminimum_numf
.quad vb_fminimum_numf
.weak vb_fminimum_num
.quad vb_fminimum_num
.weak vb_fminimum_numf128
.quad vb_fminimum_numf128
.weak vb_fmodf16
.quad vb_fmodf16
.weak vb_fmodf
.quad vb_fmodf
.weak vb_fmod
.quad vb_fmod
.weak vb_fmodf128
.quad vb_fmodf128
.weak vb_fmaf
.quad vb_fmaf
.weak vb_fma
.quad vb_fma
.weak vb_fmaf128
.quad vb_fmaf128
.weak vb_cbrtf
.quad vb_cbrtf
.weak vb_cbrt
.quad vb_cbrt
.weak vb_probestack
.quad vb_probestack
.popsection
.pushsection .text.vabi,"ax",@progbits
.globl vt___udivsi3
vt___udivsi3:
leaq vabi_slots+0(%rip), %rax
movl $1, %r11d
jmp vabi_call
.globl vt___umodsi3
vt___umodsi3:
leaq vabi_slots+8(%rip), %rax
movl $2, %r11d
jmp vabi_call
.globl vt___udivmodsi4
vt___udivmodsi4:
leaq vabi_slots+16(%rip), %rax
movl $3, %r11d
jmp vabi_call
.globl vt___udivdi3
vt___udivdi3:
leaq vabi_slots+24(%rip), %rax
movl $4, %r11d
jmp vabi_call
.globl vt___umoddi3
vt___umoddi3:
leaq vabi_slots+32(%rip), %rax
movl $5, %r11d
jmp vabi_call
.globl vt___udivmoddi4
vt___udivmoddi4:
leaq vabi_slots+40(%rip), %rax
movl $6, %r11d
jmp vabi_call
.globl vt___udivti3
vt___udivti3:
leaq vabi_slots+48(%rip), %rax
movl $7, %r11d
jmp vabi_call
.globl vt___umodti3
vt___umodti3:
leaq vabi_slots+56(%rip), %rax
movl $8, %r11d
jmp vabi_call
.globl vt___udivmodti4
vt___udivmodti4:
leaq vabi_slots+64(%rip), %rax
movl $9, %r11d
jmp vabi_call
.globl vt___divsi3
vt___divsi3:
leaq vabi_slots+72(%rip), %rax
movl $10, %r11d
jmp vabi_call
.globl vt___modsi3
vt___modsi3:
leaq vabi_slots+80(%rip), %rax
movl $11, %r11d
jmp vabi_call
.globl vt___divmodsi4
vt___divmodsi4:
leaq vabi_slots+88(%rip), %rax
movl $12, %r11d
jmp vabi_call
.globl vt___divdi3
vt___divdi3:
leaq vabi_slots+96(%rip), %rax
movl $13, %r11d
jmp vabi_call
.globl vt___moddi3
vt___moddi3:
leaq vabi_slots+104(%rip), %rax
movl $14, %r11d
jmp vabi_call
.globl vt___divmoddi4
vt___divmoddi4:
leaq vabi_slots+112(%rip), %rax
movl $15, %r11d
jmp vabi_call
.globl vt___divti3
vt___divti3:
leaq vabi_slots+120(%rip), %rax
movl $16, %r11d
jmp vabi_call
.globl vt___modti3
vt___modti3:
leaq vabi_slots+128(%rip), %rax
movl $17, %r11d
jmp vabi_call
.globl vt___divmodti4
vt___divmodti4:
leaq vabi_slots+136(%rip), %rax
movl $18, %r11d
jmp vabi_call
.globl vt___muldi3
vt___muldi3:
leaq vabi_slots+144(%rip), %rax
movl $19, %r11d
jmp vabi_call
.globl vt___multi3
vt___multi3:
leaq vabi_slots+152(%rip), %rax
movl $20, %r11d
jmp vabi_call
.globl vt___mulosi4
vt___mulosi4:
leaq vabi_slots+160(%rip), %rax
movl $21, %r11d
jmp vabi_call
.globl vt___mulodi4
vt___mulodi4:
leaq vabi_slots+168(%rip), %rax
movl $22, %r11d
jmp vabi_call
.globl vt___muloti4
vt___muloti4:
leaq vabi_slots+176(%rip), %rax
movl $23, %r11d
jmp vabi_call
.globl vt___rust_i128_mulo
vt___rust_i128_mulo:
leaq vabi_slots+184(%rip), %rax
movl $24, %r11d
jmp vabi_call
.globl vt___rust_u128_mulo
vt___rust_u128_mulo:
leaq vabi_slots+192(%rip), %rax
movl $25, %r11d
jmp vabi_call
.globl vt___rust_i128_add
vt___rust_i128_add:
leaq vabi_slots+200(%rip), %rax
movl $26, %r11d
jmp vabi_call
.globl vt___rust_i128_addo
vt___rust_i128_addo:
leaq vabi_slots+208(%rip), %rax
movl $27, %r11d
jmp vabi_call
.globl vt___rust_u128_add
vt___rust_u128_add:
leaq vabi_slots+216(%rip), %rax
movl $28, %r11d
jmp vabi_call
.globl vt___rust_u128_addo
vt___rust_u128_addo:
leaq vabi_slots+224(%rip), %rax
movl $29, %r11d
jmp vabi_call
.globl vt___rust_i128_sub
vt___rust_i128_sub:
leaq vabi_slots+232(%rip), %rax
movl $30, %r11d
jmp vabi_call
.globl vt___rust_i128_subo
vt___rust_i128_subo:
leaq vabi_slots+240(%rip), %rax
movl $31, %r11d
jmp vabi_call
.globl vt___rust_u128_sub
vt___rust_u128_sub:
leaq vabi_slots+248(%rip), %rax
movl $32, %r11d
jmp vabi_call
.globl vt___rust_u128_subo
vt___rust_u128_subo:
leaq vabi_slots+256(%rip), %rax
movl $33, %r11d
jmp vabi_call
.globl vt___ashlsi3
vt___ashlsi3:
leaq vabi_slots+264(%rip), %rax
movl $34, %r11d
jmp vabi_call
.globl vt___ashldi3
vt___ashldi3:
leaq vabi_slots+272(%rip), %rax
movl $35, %r11d
jmp vabi_call
.globl vt___ashlti3
vt___ashlti3:
leaq vabi_slots+280(%rip), %rax
movl $36, %r11d
jmp vabi_call
.globl vt___ashrsi3
vt___ashrsi3:
leaq vabi_slots+288(%rip), %rax
movl $37, %r11d
jmp vabi_call
.globl vt___ashrdi3
vt___ashrdi3:
leaq vabi_slots+296(%rip), %rax
movl $38, %r11d
jmp vabi_call
.globl vt___ashrti3
vt___ashrti3:
leaq vabi_slots+304(%rip), %rax
movl $39, %r11d
jmp vabi_call
.globl vt___lshrsi3
vt___lshrsi3:
leaq vabi_slots+312(%rip), %rax
movl $40, %r11d
jmp vabi_call
.globl vt___lshrdi3
vt___lshrdi3:
leaq vabi_slots+320(%rip), %rax
movl $41, %r11d
jmp vabi_call
.globl vt___lshrti3
vt___lshrti3:
leaq vabi_slots+328(%rip), %rax
movl $42, %r11d
jmp vabi_call
.globl vt___clzsi2
vt___clzsi2:
leaq vabi_slots+336(%rip), %rax
movl $43, %r11d
jmp vabi_call
.globl vt___clzdi2
vt___clzdi2:
leaq vabi_slots+344(%rip), %rax
movl $44, %r11d
jmp vabi_call
.globl vt___clzti2
vt___clzti2:
leaq vabi_slots+352(%rip), %rax
movl $45, %r11d
jmp vabi_call
.globl vt___ctzsi2
vt___ctzsi2:
leaq vabi_slots+360(%rip), %rax
movl $46, %r11d
jmp vabi_call
.globl vt___ctzdi2
vt___ctzdi2:
leaq vabi_slots+368(%rip), %rax
movl $47, %r11d
jmp vabi_call
.globl vt___ctzti2
vt___ctzti2:
leaq vabi_slots+376(%rip), %rax
movl $48, %r11d
jmp vabi_call
.globl vt___bswapsi2
vt___bswapsi2:
leaq vabi_slots+384(%rip), %rax
movl $49, %r11d
jmp vabi_call
.globl vt___bswapdi2
vt___bswapdi2:
leaq vabi_slots+392(%rip), %rax
movl $50, %r11d
jmp vabi_call
.globl vt___bswapti2
vt___bswapti2:
leaq vabi_slots+400(%rip), %rax
movl $51, %r11d
jmp vabi_call
.globl vt___addhf3
vt___addhf3:
leaq vabi_slots+408(%rip), %rax
movl $52, %r11d
jmp vabi_call
.globl vt___addsf3
vt___addsf3:
leaq vabi_slots+416(%rip), %rax
movl $53, %r11d
jmp vabi_call
.globl vt___adddf3
vt___adddf3:
leaq vabi_slots+424(%rip), %rax
movl $54, %r11d
jmp vabi_call
.globl vt___addtf3
vt___addtf3:
leaq vabi_slots+432(%rip), %rax
movl $55, %r11d
jmp vabi_call
.globl vt___subhf3
vt___subhf3:
leaq vabi_slots+440(%rip), %rax
movl $56, %r11d
jmp vabi_call
.globl vt___subsf3
vt___subsf3:
leaq vabi_slots+448(%rip), %rax
movl $57, %r11d
jmp vabi_call
.globl vt___subdf3
vt___subdf3:
leaq vabi_slots+456(%rip), %rax
movl $58, %r11d
jmp vabi_call
.globl vt___subtf3
vt___subtf3:
leaq vabi_slots+464(%rip), %rax
movl $59, %r11d
jmp vabi_call
.globl vt___mulhf3
vt___mulhf3:
leaq vabi_slots+472(%rip), %rax
movl $60, %r11d
jmp vabi_call
.globl vt___mulsf3
vt___mulsf3:
leaq vabi_slots+480(%rip), %rax
movl $61, %r11d
jmp vabi_call
.globl vt___muldf3
vt___muldf3:
leaq vabi_slots+488(%rip), %rax
movl $62, %r11d
jmp vabi_call
.globl vt___multf3
vt___multf3:
leaq vabi_slots+496(%rip), %rax
movl $63, %r11d
jmp vabi_call
.globl vt___divsf3
vt___divsf3:
leaq vabi_slots+504(%rip), %rax
movl $64, %r11d
jmp vabi_call
.globl vt___divdf3
vt___divdf3:
leaq vabi_slots+512(%rip), %rax
movl $65, %r11d
jmp vabi_call
.globl vt___divtf3
vt___divtf3:
leaq vabi_slots+520(%rip), %rax
movl $66, %r11d
jmp vabi_call
.globl vt___lehf2
vt___lehf2:
leaq vabi_slots+528(%rip), %rax
movl $67, %r11d
jmp vabi_call
.globl vt___lesf2
vt___lesf2:
leaq vabi_slots+536(%rip), %rax
movl $68, %r11d
jmp vabi_call
.globl vt___ledf2
vt___ledf2:
leaq vabi_slots+544(%rip), %rax
movl $69, %r11d
jmp vabi_call
.globl vt___letf2
vt___letf2:
leaq vabi_slots+552(%rip), %rax
movl $70, %r11d
jmp vabi_call
.globl vt___gehf2
vt___gehf2:
leaq vabi_slots+560(%rip), %rax
movl $71, %r11d
jmp vabi_call
.globl vt___gesf2
vt___gesf2:
leaq vabi_slots+568(%rip), %rax
movl $72, %r11d
jmp vabi_call
.globl vt___gedf2
vt___gedf2:
leaq vabi_slots+576(%rip), %rax
movl $73, %r11d
jmp vabi_call
.globl vt___getf2
vt___getf2:
leaq vabi_slots+584(%rip), %rax
movl $74, %r11d
jmp vabi_call
.globl vt___unordhf2
vt___unordhf2:
leaq vabi_slots+592(%rip), %rax
movl $75, %r11d
jmp vabi_call
.globl vt___unordsf2
vt___unordsf2:
leaq vabi_slots+600(%rip), %rax
movl $76, %r11d
jmp vabi_call
.globl vt___unorddf2
vt___unorddf2:
leaq vabi_slots+608(%rip), %rax
movl $77, %r11d
jmp vabi_call
.globl vt___unordtf2
vt___unordtf2:
leaq vabi_slots+616(%rip), %rax
movl $78, %r11d
jmp vabi_call
.globl vt___eqhf2
vt___eqhf2:
leaq vabi_slots+624(%rip), %rax
movl $79, %r11d
jmp vabi_call
.globl vt___eqsf2
vt___eqsf2:
leaq vabi_slots+632(%rip), %rax
movl $80, %r11d
jmp vabi_call
.globl vt___eqdf2
vt___eqdf2:
leaq vabi_slots+640(%rip), %rax
movl $81, %r11d
jmp vabi_call
.globl vt___eqtf2
vt___eqtf2:
leaq vabi_slots+648(%rip), %rax
movl $82, %r11d
jmp vabi_call
.globl vt___lthf2
vt___lthf2:
leaq vabi_slots+656(%rip), %rax
movl $83, %r11d
jmp vabi_call
.globl vt___ltsf2
vt___ltsf2:
leaq vabi_slots+664(%rip), %rax
movl $84, %r11d
jmp vabi_call
.globl vt___ltdf2
vt___ltdf2:
leaq vabi_slots+672(%rip), %rax
movl $85, %r11d
jmp vabi_call
.globl vt___lttf2
vt___lttf2:
leaq vabi_slots+680(%rip), %rax
movl $86, %r11d
jmp vabi_call
.globl vt___nehf2
vt___nehf2:
leaq vabi_slots+688(%rip), %rax
movl $87, %r11d
jmp vabi_call
.globl vt___nesf2
vt___nesf2:
leaq vabi_slots+696(%rip), %rax
movl $88, %r11d
jmp vabi_call
.globl vt___nedf2
vt___nedf2:
leaq vabi_slots+704(%rip), %rax
movl $89, %r11d
jmp vabi_call
.globl vt___netf2
vt___netf2:
leaq vabi_slots+712(%rip), %rax
movl $90, %r11d
jmp vabi_call
.globl vt___gthf2
vt___gthf2:
leaq vabi_slots+720(%rip), %rax
movl $91, %r11d
jmp vabi_call
.globl vt___gtsf2
vt___gtsf2:
leaq vabi_slots+728(%rip), %rax
movl $92, %r11d
jmp vabi_call
.globl vt___gtdf2
vt___gtdf2:
leaq vabi_slots+736(%rip), %rax
movl $93, %r11d
jmp vabi_call
.globl vt___gttf2
vt___gttf2:
leaq vabi_slots+744(%rip), %rax
movl $94, %r11d
jmp vabi_call
.globl vt___floatunsisf
vt___floatunsisf:
leaq vabi_slots+752(%rip), %rax
movl $95, %r11d
jmp vabi_call
.globl vt___floatsisf
vt___floatsisf:
leaq vabi_slots+760(%rip), %rax
movl $96, %r11d
jmp vabi_call
.globl vt___fixunssfsi
vt___fixunssfsi:
leaq vabi_slots+768(%rip), %rax
movl $97, %r11d
jmp vabi_call
.globl vt___fixsfsi
vt___fixsfsi:
leaq vabi_slots+776(%rip), %rax
movl $98, %r11d
jmp vabi_call
.globl vt___floatundisf
vt___floatundisf:
leaq vabi_slots+784(%rip), %rax
movl $99, %r11d
jmp vabi_call
.globl vt___floatdisf
vt___floatdisf:
leaq vabi_slots+792(%rip), %rax
movl $100, %r11d
jmp vabi_call
.globl vt___fixunssfdi
vt___fixunssfdi:
leaq vabi_slots+800(%rip), %rax
movl $101, %r11d
jmp vabi_call
.globl vt___fixsfdi
vt___fixsfdi:
leaq vabi_slots+808(%rip), %rax
movl $102, %r11d
jmp vabi_call
.globl vt___floatuntisf
vt___floatuntisf:
leaq vabi_slots+816(%rip), %rax
movl $103, %r11d
jmp vabi_call
.globl vt___floattisf
vt___floattisf:
leaq vabi_slots+824(%rip), %rax
movl $104, %r11d
jmp vabi_call
.globl vt___fixunssfti
vt___fixunssfti:
leaq vabi_slots+832(%rip), %rax
movl $105, %r11d
jmp vabi_call
.globl vt___fixsfti
vt___fixsfti:
leaq vabi_slots+840(%rip), %rax
movl $106, %r11d
jmp vabi_call
.globl vt___floatunsidf
vt___floatunsidf:
leaq vabi_slots+848(%rip), %rax
movl $107, %r11d
jmp vabi_call
.globl vt___floatsidf
vt___floatsidf:
leaq vabi_slots+856(%rip), %rax
movl $108, %r11d
jmp vabi_call
.globl vt___fixunsdfsi
vt___fixunsdfsi:
leaq vabi_slots+864(%rip), %rax
movl $109, %r11d
jmp vabi_call
.globl vt___fixdfsi
vt___fixdfsi:
leaq vabi_slots+872(%rip), %rax
movl $110, %r11d
jmp vabi_call
.globl vt___floatundidf
vt___floatundidf:
leaq vabi_slots+880(%rip), %rax
movl $111, %r11d
jmp vabi_call
.globl vt___floatdidf
vt___floatdidf:
leaq vabi_slots+888(%rip), %rax
movl $112, %r11d
jmp vabi_call
.globl vt___fixunsdfdi
vt___fixunsdfdi:
leaq vabi_slots+896(%rip), %rax
movl $113, %r11d
jmp vabi_call
.globl vt___fixdfdi
vt___fixdfdi:
leaq vabi_slots+904(%rip), %rax
movl $114, %r11d
jmp vabi_call
.globl vt___floatuntidf
vt___floatuntidf:
leaq vabi_slots+912(%rip), %rax
movl $115, %r11d
jmp vabi_call
.globl vt___floattidf
vt___floattidf:
leaq vabi_slots+920(%rip), %rax
movl $116, %r11d
jmp vabi_call
.globl vt___fixunsdfti
vt___fixunsdfti:
leaq vabi_slots+928(%rip), %rax
movl $117, %r11d
jmp vabi_call
.globl vt___fixdfti
vt___fixdfti:
leaq vabi_slots+936(%rip), %rax
movl $118, %r11d
jmp vabi_call
.globl vt___floatunsitf
vt___floatunsitf:
leaq vabi_slots+944(%rip), %rax
movl $119, %r11d
jmp vabi_call
.globl vt___floatsitf
vt___floatsitf:
leaq vabi_slots+952(%rip), %rax
movl $120, %r11d
jmp vabi_call
.globl vt___fixunstfsi
vt___fixunstfsi:
leaq vabi_slots+960(%rip), %rax
movl $121, %r11d
jmp vabi_call
.globl vt___fixtfsi
vt___fixtfsi:
leaq vabi_slots+968(%rip), %rax
movl $122, %r11d
jmp vabi_call
.globl vt___floatunditf
vt___floatunditf:
leaq vabi_slots+976(%rip), %rax
movl $123, %r11d
jmp vabi_call
.globl vt___floatditf
vt___floatditf:
leaq vabi_slots+984(%rip), %rax
movl $124, %r11d
jmp vabi_call
.globl vt___fixunstfdi
vt___fixunstfdi:
leaq vabi_slots+992(%rip), %rax
movl $125, %r11d
jmp vabi_call
.globl vt___fixtfdi
vt___fixtfdi:
leaq vabi_slots+1000(%rip), %rax
movl $126, %r11d
jmp vabi_call
.globl vt___floatuntitf
vt___floatuntitf:
leaq vabi_slots+1008(%rip), %rax
movl $127, %r11d
jmp vabi_call
.globl vt___floattitf
vt___floattitf:
leaq vabi_slots+1016(%rip), %rax
movl $128, %r11d
jmp vabi_call
.globl vt___fixunstfti
vt___fixunstfti:
leaq vabi_slots+1024(%rip), %rax
movl $129, %r11d
jmp vabi_call
.globl vt___fixtfti
vt___fixtfti:
leaq vabi_slots+1032(%rip), %rax
movl $130, %r11d
jmp vabi_call
.globl vt___extendhfsf2
vt___extendhfsf2:
leaq vabi_slots+1040(%rip), %rax
movl $131, %r11d
jmp vabi_call
.globl vt___truncsfhf2
vt___truncsfhf2:
leaq vabi_slots+1048(%rip), %rax
movl $132, %r11d
jmp vabi_call
.globl vt___extendhfdf2
vt___extendhfdf2:
leaq vabi_slots+1056(%rip), %rax
movl $133, %r11d
jmp vabi_call
.globl vt___truncdfhf2
vt___truncdfhf2:
leaq vabi_slots+1064(%rip), %rax
movl $134, %r11d
jmp vabi_call
.globl vt___extendhftf2
vt___extendhftf2:
leaq vabi_slots+1072(%rip), %rax
movl $135, %r11d
jmp vabi_call
.globl vt___trunctfhf2
vt___trunctfhf2:
leaq vabi_slots+1080(%rip), %rax
movl $136, %r11d
jmp vabi_call
.globl vt___extendsfdf2
vt___extendsfdf2:
leaq vabi_slots+1088(%rip), %rax
movl $137, %r11d
jmp vabi_call
.globl vt___truncdfsf2
vt___truncdfsf2:
leaq vabi_slots+1096(%rip), %rax
movl $138, %r11d
jmp vabi_call
.globl vt___extendsftf2
vt___extendsftf2:
leaq vabi_slots+1104(%rip), %rax
movl $139, %r11d
jmp vabi_call
.globl vt___trunctfsf2
vt___trunctfsf2:
leaq vabi_slots+1112(%rip), %rax
movl $140, %r11d
jmp vabi_call
.globl vt___extenddftf2
vt___extenddftf2:
leaq vabi_slots+1120(%rip), %rax
movl $141, %r11d
jmp vabi_call
.globl vt___trunctfdf2
vt___trunctfdf2:
leaq vabi_slots+1128(%rip), %rax
movl $142, %r11d
jmp vabi_call
.globl vt___gnu_h2f_ieee
vt___gnu_h2f_ieee:
leaq vabi_slots+1136(%rip), %rax
movl $143, %r11d
jmp vabi_call
.globl vt___gnu_f2h_ieee
vt___gnu_f2h_ieee:
leaq vabi_slots+1144(%rip), %rax
movl $144, %r11d
jmp vabi_call
.globl vt___powisf2
vt___powisf2:
leaq vabi_slots+1152(%rip), %rax
movl $145, %r11d
jmp vabi_call
.globl vt___powidf2
vt___powidf2:
leaq vabi_slots+1160(%rip), %rax
movl $146, %r11d
jmp vabi_call
.globl vt___powitf2
vt___powitf2:
leaq vabi_slots+1168(%rip), %rax
movl $147, %r11d
jmp vabi_call
.globl vt_memcpy
vt_memcpy:
leaq vabi_slots+1176(%rip), %rax
movl $148, %r11d
jmp vabi_call
.globl vt_memmove
vt_memmove:
leaq vabi_slots+1184(%rip), %rax
movl $149, %r11d
jmp vabi_call
.globl vt_memset
vt_memset:
leaq vabi_slots+1192(%rip), %rax
movl $150, %r11d
jmp vabi_call
.globl vt_memcmp
vt_memcmp:
leaq vabi_slots+1200(%rip), %rax
movl $151, %r11d
jmp vabi_call
.globl vt_bcmp
vt_bcmp:
leaq vabi_slots+1208(%rip), %rax
movl $152, %r11d
jmp vabi_call
.globl vt_strlen
vt_strlen:
leaq vabi_slots+1216(%rip), %rax
movl $153, %r11d
jmp vabi_call
.globl vt_ceilf16
vt_ceilf16:
leaq vabi_slots+1224(%rip), %rax
movl $154, %r11d
jmp vabi_call
.globl vt_ceilf
vt_ceilf:
leaq vabi_slots+1232(%rip), %rax
movl $155, %r11d
jmp vabi_call
.globl vt_ceil
vt_ceil:
leaq vabi_slots+1240(%rip), %rax
movl $156, %r11d
jmp vabi_call
.globl vt_ceilf128
vt_ceilf128:
leaq vabi_slots+1248(%rip), %rax
movl $157, %r11d
jmp vabi_call
.globl vt_fabsf16
vt_fabsf16:
leaq vabi_slots+1256(%rip), %rax
movl $158, %r11d
jmp vabi_call
.globl vt_fabsf
vt_fabsf:
leaq vabi_slots+1264(%rip), %rax
movl $159, %r11d
jmp vabi_call
.globl vt_fabs
vt_fabs:
leaq vabi_slots+1272(%rip), %rax
movl $160, %r11d
jmp vabi_call
.globl vt_fabsf128
vt_fabsf128:
leaq vabi_slots+1280(%rip), %rax
movl $161, %r11d
jmp vabi_call
.globl vt_floorf16
vt_floorf16:
leaq vabi_slots+1288(%rip), %rax
movl $162, %r11d
jmp vabi_call
.globl vt_floorf
vt_floorf:
leaq vabi_slots+1296(%rip), %rax
movl $163, %r11d
jmp vabi_call
.globl vt_floor
vt_floor:
leaq vabi_slots+1304(%rip), %rax
movl $164, %r11d
jmp vabi_call
.globl vt_floorf128
vt_floorf128:
leaq vabi_slots+1312(%rip), %rax
movl $165, %r11d
jmp vabi_call
.globl vt_rintf16
vt_rintf16:
leaq vabi_slots+1320(%rip), %rax
movl $166, %r11d
jmp vabi_call
.globl vt_rintf
vt_rintf:
leaq vabi_slots+1328(%rip), %rax
movl $167, %r11d
jmp vabi_call
.globl vt_rint
vt_rint:
leaq vabi_slots+1336(%rip), %rax
movl $168, %r11d
jmp vabi_call
.globl vt_rintf128
vt_rintf128:
leaq vabi_slots+1344(%rip), %rax
movl $169, %r11d
jmp vabi_call
.globl vt_roundevenf16
vt_roundevenf16:
leaq vabi_slots+1352(%rip), %rax
movl $170, %r11d
jmp vabi_call
.globl vt_roundevenf
vt_roundevenf:
leaq vabi_slots+1360(%rip), %rax
movl $171, %r11d
jmp vabi_call
.globl vt_roundeven
vt_roundeven:
leaq vabi_slots+1368(%rip), %rax
movl $172, %r11d
jmp vabi_call
.globl vt_roundevenf128
vt_roundevenf128:
leaq vabi_slots+1376(%rip), %rax
movl $173, %r11d
jmp vabi_call
.globl vt_roundf16
vt_roundf16:
leaq vabi_slots+1384(%rip), %rax
movl $174, %r11d
jmp vabi_call
.globl vt_roundf
vt_roundf:
leaq vabi_slots+1392(%rip), %rax
movl $175, %r11d
jmp vabi_call
.globl vt_round
vt_round:
leaq vabi_slots+1400(%rip), %rax
movl $176, %r11d
jmp vabi_call
.globl vt_roundf128
vt_roundf128:
leaq vabi_slots+1408(%rip), %rax
movl $177, %r11d
jmp vabi_call
.globl vt_sqrtf16
vt_sqrtf16:
leaq vabi_slots+1416(%rip), %rax
movl $178, %r11d
jmp vabi_call
.globl vt_sqrtf
vt_sqrtf:
leaq vabi_slots+1424(%rip), %rax
movl $179, %r11d
jmp vabi_call
.globl vt_sqrt
vt_sqrt:
leaq vabi_slots+1432(%rip), %rax
movl $180, %r11d
jmp vabi_call
.globl vt_sqrtf128
vt_sqrtf128:
leaq vabi_slots+1440(%rip), %rax
movl $181, %r11d
jmp vabi_call
.globl vt_truncf16
vt_truncf16:
leaq vabi_slots+1448(%rip), %rax
movl $182, %r11d
jmp vabi_call
.globl vt_truncf
vt_truncf:
leaq vabi_slots+1456(%rip), %rax
movl $183, %r11d
jmp vabi_call
.globl vt_trunc
vt_trunc:
leaq vabi_slots+1464(%rip), %rax
movl $184, %r11d
jmp vabi_call
.globl vt_truncf128
vt_truncf128:
leaq vabi_slots+1472(%rip), %rax
movl $185, %r11d
jmp vabi_call
.globl vt_copysignf16
vt_copysignf16:
leaq vabi_slots+1480(%rip), %rax
movl $186, %r11d
jmp vabi_call
.globl vt_copysignf
vt_copysignf:
leaq vabi_slots+1488(%rip), %rax
movl $187, %r11d
jmp vabi_call
.globl vt_copysign
vt_copysign:
leaq vabi_slots+1496(%rip), %rax
movl $188, %r11d
jmp vabi_call
.globl vt_copysignf128
vt_copysignf128:
leaq vabi_slots+1504(%rip), %rax
movl $189, %r11d
jmp vabi_call
.globl vt_fdimf16
vt_fdimf16:
leaq vabi_slots+1512(%rip), %rax
movl $190, %r11d
jmp vabi_call
.globl vt_fdimf
vt_fdimf:
leaq vabi_slots+1520(%rip), %rax
movl $191, %r11d
jmp vabi_call
.globl vt_fdim
vt_fdim:
leaq vabi_slots+1528(%rip), %rax
movl $192, %r11d
jmp vabi_call
.globl vt_fdimf128
vt_fdimf128:
leaq vabi_slots+1536(%rip), %rax
movl $193, %r11d
jmp vabi_call
.globl vt_fmaxf16
vt_fmaxf16:
leaq vabi_slots+1544(%rip), %rax
movl $194, %r11d
jmp vabi_call
.globl vt_fmaxf
vt_fmaxf:
leaq vabi_slots+1552(%rip), %rax
movl $195, %r11d
jmp vabi_call
.globl vt_fmax
vt_fmax:
leaq vabi_slots+1560(%rip), %rax
movl $196, %r11d
jmp vabi_call
.globl vt_fmaxf128
vt_fmaxf128:
leaq vabi_slots+1568(%rip), %rax
movl $197, %r11d
jmp vabi_call
.globl vt_fmaximumf16
vt_fmaximumf16:
leaq vabi_slots+1576(%rip), %rax
movl $198, %r11d
jmp vabi_call
.globl vt_fmaximumf
vt_fmaximumf:
leaq vabi_slots+1584(%rip), %rax
movl $199, %r11d
jmp vabi_call
.globl vt_fmaximum
vt_fmaximum:
leaq vabi_slots+1592(%rip), %rax
movl $200, %r11d
jmp vabi_call
.globl vt_fmaximumf128
vt_fmaximumf128:
leaq vabi_slots+1600(%rip), %rax
movl $201, %r11d
jmp vabi_call
.globl vt_fmaximum_numf16
vt_fmaximum_numf16:
leaq vabi_slots+1608(%rip), %rax
movl $202, %r11d
jmp vabi_call
.globl vt_fmaximum_numf
vt_fmaximum_numf:
leaq vabi_slots+1616(%rip), %rax
movl $203, %r11d
jmp vabi_call
.globl vt_fmaximum_num
vt_fmaximum_num:
leaq vabi_slots+1624(%rip), %rax
movl $204, %r11d
jmp vabi_call
.globl vt_fmaximum_numf128
vt_fmaximum_numf128:
leaq vabi_slots+1632(%rip), %rax
movl $205, %r11d
jmp vabi_call
.globl vt_fminf16
vt_fminf16:
leaq vabi_slots+1640(%rip), %rax
movl $206, %r11d
jmp vabi_call
.globl vt_fminf
vt_fminf:
leaq vabi_slots+1648(%rip), %rax
movl $207, %r11d
jmp vabi_call
.globl vt_fmin
vt_fmin:
leaq vabi_slots+1656(%rip), %rax
movl $208, %r11d
jmp vabi_call
.globl vt_fminf128
vt_fminf128:
leaq vabi_slots+1664(%rip), %rax
movl $209, %r11d
jmp vabi_call
.globl vt_fminimumf16
vt_fminimumf16:
leaq vabi_slots+1672(%rip), %rax
movl $210, %r11d
jmp vabi_call
.globl vt_fminimumf
vt_fminimumf:
leaq vabi_slots+1680(%rip), %rax
movl $211, %r11d
jmp vabi_call
.globl vt_fminimum
vt_fminimum:
leaq vabi_slots+1688(%rip), %rax
movl $212, %r11d
jmp vabi_call
.globl vt_fminimumf128
vt_fminimumf128:
leaq vabi_slots+1696(%rip), %rax
movl $213, %r11d
jmp vabi_call
.globl vt_fminimum_numf16
vt_fminimum_numf16:
leaq vabi_slots+1704(%rip), %rax
movl $214, %r11d
jmp vabi_call
.globl vt_fminimum_numf
vt_fminimum_numf:
leaq vabi_slots+1712(%rip), %rax
movl $215, %r11d
jmp vabi_call
.globl vt_fminimum_num
vt_fminimum_num:
leaq vabi_slots+1720(%rip), %rax
movl $216, %r11d
jmp vabi_call
.globl vt_fminimum_numf128
vt_fminimum_numf128:
leaq vabi_slots+1728(%rip), %rax
movl $217, %r11d
jmp vabi_call
.globl vt_fmodf16
vt_fmodf16:
leaq vabi_slots+1736(%rip), %rax
movl $218, %r11d
jmp vabi_call
.globl vt_fmodf
vt_fmodf:
leaq vabi_slots+1744(%rip), %rax
movl $219, %r11d
jmp vabi_call
.globl vt_fmod
vt_fmod:
leaq vabi_slots+1752(%rip), %rax
movl $220, %r11d
jmp vabi_call
.globl vt_fmodf128
vt_fmodf128:
leaq vabi_slots+1760(%rip), %rax
movl $221, %r11d
jmp vabi_call
.globl vt_fmaf
vt_fmaf:
leaq vabi_slots+1768(%rip), %rax
movl $222, %r11d
jmp vabi_call
.globl vt_fma
vt_fma:
leaq vabi_slots+1776(%rip), %rax
movl $223, %r11d
jmp vabi_call
.globl vt_fmaf128
vt_fmaf128:
leaq vabi_slots+1784(%rip), %rax
movl $224, %r11d
jmp vabi_call
.globl vt_cbrtf
vt_cbrtf:
leaq vabi_slots+1792(%rip), %rax
movl $225, %r11d
jmp vabi_call
.globl vt_cbrt
vt_cbrt:
leaq vabi_slots+1800(%rip), %rax
movl $226, %r11d
jmp vabi_call
vabi_call:
pushq %rbx
pushq %rbp
pushq %r12
pushq %r13
pushq %r14
pushq %r15
subq $24, %rsp
movq %r11, (%rsp)
stmxcsr 8(%rsp)
fnstcw 12(%rsp)
movabsq $0x1122334455667700, %rbx
movabsq $0x1223344556677802, %rbp
movabsq $0x1324354657687904, %r12
movabsq $0x1425364758697a06, %r13
movabsq $0x15263748596a7b08, %r14
movabsq $0x162738495a6b7c0a, %r15
call *(%rax)
movl $0, %r11d
movabsq $0x1122334455667700, %r10
cmpq %r10, %rbx
jne 8f
movabsq $0x1223344556677802, %r10
cmpq %r10, %rbp
jne 8f
movabsq $0x1324354657687904, %r10
cmpq %r10, %r12
jne 8f
movabsq $0x1425364758697a06, %r10
cmpq %r10, %r13
jne 8f
movabsq $0x15263748596a7b08, %r10
cmpq %r10, %r14
jne 8f
movabsq $0x162738495a6b7c0a, %r10
cmpq %r10, %r15
jne 8f
pushfq
popq %r10
testl $0x400, %r10d
jne 8f
stmxcsr 16(%rsp)
movl 16(%rsp), %r10d
xorl 8(%rsp), %r10d
testl $0xffc0, %r10d
jne 8f
fnstcw 16(%rsp)
movzwl 16(%rsp), %r10d
movzwl 12(%rsp), %ecx
cmpl %ecx, %r10d
jne 8f
jmp 9f
8:
cld
ldmxcsr 8(%rsp)
fldcw 12(%rsp)
movq (%rsp), %r11
movq vabi_bad@gottpoff(%rip), %rcx
movl %r11d, %fs:(%rcx)
9:
addq $24, %rsp
popq %r15
popq %r14
popq %r13
popq %r12
popq %rbp
popq %rbx
ret
.popsection

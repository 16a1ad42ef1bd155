#!/usr/bin/env python3
"""Write harness/abi/src/lib.rs: the exported C symbols, each called through a trampoline that
checks the calling convention."""
import os, re
here = os.path.dirname(os.path.abspath(__file__))
h = os.path.join(here, '..', 'harness')
sigs = []  # (name, path, args, ret, safe)
for f in ('ints', 'floats', 'mem'):
    t = open(f'{h}/vrt/src/{f}.rs').read()
    types = dict((m[1], (m[2], m[3], not m[0])) for m in re.findall(r'pub (\w+): (unsafe )?extern "C" fn\((.*?)\) -> (.*?),\n', t) for m in [(m[1], m[0], m[2], m[3])])
    for field, path, name in re.findall(r'(\w+): \$c::([\w:]+)::(\w+),', t):
        a, r, safe = types[field]
        sigs.append((name, path.split('::'), re.split(r', (?![^<]*>)', a), r, safe))
fmts = {'f16': 'f16', 'f': 'f32', '': 'f64', 'f128': 'f128'}
math = []
for base, n in [(b, 1) for b in 'ceil fabs floor rint roundeven round sqrt trunc'.split()] + \
        [(b, 2) for b in 'copysign fdim fmax fmaximum fmaximum_num fmin fminimum fminimum_num fmod'.split()] + [('fma', 3), ('cbrt', 1)]:
    for suf, ty in fmts.items():
        if base == 'fma' and suf == 'f16' or base == 'cbrt' and suf in ('f16', 'f128'):
            continue
        math.append((base + suf, [], [ty] * n, ty, True))
allsigs = sigs + math
o = ['// Written by tools/gen_abi.py.',
     '//! The exported C symbols of the runtime library. Every function goes through a trampoline that',
     '//! fills the callee-saved registers, calls the symbol and compares what came back.',
     '#![feature(f16, f128, thread_local)]',
     'use std::cell::Cell;', '',
     '// whatever is not exported comes from the math library, so that this crate can stand in for it',
     'pub use libm_rest::*;', '',
     '/// Number (from 1) of the symbol last seen to break the calling convention on this thread.',
     '#[thread_local]', '#[unsafe(no_mangle)]', 'pub static vabi_bad: Cell<u32> = Cell::new(0);', '',
     'std::arch::global_asm!(', '    include_str!("tramp.s"),', '    options(att_syntax)', ');', '',
     'unsafe extern "C" {', f'    static vabi_slots: [usize; {len(allsigs) + 1}];', '}', '',
     '/// Address of a symbol by its position in [`NAMES`], 0 if there is none. The one after the last is the stack probe.',
     'pub fn address(i: usize) -> usize {', '    unsafe { vabi_slots[i] }', '}', '',
     f'pub const NAMES: [&str; {len(allsigs)}] = [']
o += [f'    "{s[0]}",' for s in allsigs] + ['];', '']
def emit(items, ind):
    p = '    ' * ind
    r = [p + 'unsafe extern "C" {']
    for n, _, a, ret, safe in items:
        args = ', '.join(f'x{i}: {t}' for i, t in enumerate(a))
        r += [p + f'    #[link_name = "vt_{n}"]', p + f'    pub {"safe" if safe else "unsafe"} fn {n}({args}) -> {ret};']
    return r + [p + '}']
o += emit(math, 0)
tree = {}
for s in sigs:
    tree.setdefault(s[1][0], {}).setdefault(s[1][1] if len(s[1]) > 1 else None, []).append(s)
for top, subs in tree.items():
    o += ['', f'pub mod {top} {{']
    for sub, items in subs.items():
        if sub is None:
            o += emit(items, 1)
        else:
            o += [f'    pub mod {sub} {{'] + emit(items, 2) + ['    }']
    o += ['}']
open(f'{h}/abi/src/lib.rs', 'w').write('\n'.join(o) + '\n')

regs = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']
s = ['# Written by tools/gen_abi.py.', '.pushsection .data.rel.ro.vabi,"aw",@progbits', '.balign 8', '.globl vabi_slots', 'vabi_slots:']
for n, *_ in allsigs:
    s += [f'.weak vb_{n}', f'.quad vb_{n}']
s += ['.weak vb_probestack', '.quad vb_probestack', '.popsection', '.pushsection .text.vabi,"ax",@progbits']
for i, (n, *_) in enumerate(allsigs):
    s += [f'.globl vt_{n}', f'vt_{n}:', f'leaq vabi_slots+{8 * i}(%rip), %rax', f'movl ${i + 1}, %r11d', 'jmp vabi_call']
s += ['vabi_call:']
s += [f'pushq %{r}' for r in regs]
# keep the slot number and the control word on the stack; rsp is 16-byte aligned at the call
s += ['subq $24, %rsp', 'movq %r11, (%rsp)', 'stmxcsr 8(%rsp)', 'fnstcw 12(%rsp)']
s += [f'movabsq $0x{0x1122334455667700 + 0x0101010101010101 * k + k:x}, %{r}' for k, r in enumerate(regs)]
s += ['call *(%rax)', 'movl $0, %r11d']
for k, r in enumerate(regs):
    s += [f'movabsq $0x{0x1122334455667700 + 0x0101010101010101 * k + k:x}, %r10', f'cmpq %r10, %{r}', 'jne 8f']
# direction flag clear, control bits of both floating-point units unchanged, register stack empty
s += ['pushfq', 'popq %r10', 'testl $0x400, %r10d', 'jne 8f',
      'stmxcsr 16(%rsp)', 'movl 16(%rsp), %r10d', 'xorl 8(%rsp), %r10d', 'testl $0xffc0, %r10d', 'jne 8f',
      'fnstcw 16(%rsp)', 'movzwl 16(%rsp), %r10d', 'movzwl 12(%rsp), %ecx', 'cmpl %ecx, %r10d', 'jne 8f', 'jmp 9f',
      '8:', 'cld', 'ldmxcsr 8(%rsp)', 'fldcw 12(%rsp)', 'movq (%rsp), %r11', 'movq vabi_bad@gottpoff(%rip), %rcx', 'movl %r11d, %fs:(%rcx)', '9:',
      'addq $24, %rsp']
s += [f'popq %{r}' for r in reversed(regs)] + ['ret', '.popsection']
open(f'{h}/abi/src/tramp.s', 'w').write('\n'.join(s) + '\n')
print(len(allsigs), 'symbols')

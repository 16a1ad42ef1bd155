//! Writers for small object files and archives.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Format {
    Elf { wide: bool, little: bool, machine: u16 },
    Coff { machine: u16 },
    /// 64-bit, little endian.
    MachO { cpu: u32 },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    Undefined,
    Text,
    Data,
    Gdb,
    Absolute,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bind {
    Local,
    Global,
    Weak,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Vis {
    Hidden,
    Default,
    Protected,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Sym {
    pub name: String,
    pub place: Place,
    pub bind: Bind,
    pub vis: Vis,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Note {
    Plain,
    Absent,
    Exec,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Object,
    /// An executable; `exec`: its stack header asks for an executable stack.
    Program { dynamic: bool, exec: bool },
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub format: Format,
    pub os: u8,
    pub flags: u32,
    pub platform: Option<u32>,
    pub note: Note,
    /// Has a section with code.
    pub code: bool,
    pub kind: Kind,
    pub syms: Vec<Sym>,
}

struct Buf {
    d: Vec<u8>,
    little: bool,
    wide: bool,
}

impl Buf {
    fn n(&mut self, v: u64, bytes: usize) {
        let b = v.to_le_bytes();
        if self.little {
            self.d.extend_from_slice(&b[..bytes]);
        } else {
            self.d.extend(b[..bytes].iter().rev());
        }
    }
    fn word(&mut self, v: u64) {
        self.n(v, if self.wide { 8 } else { 4 });
    }
    fn align(&mut self, a: usize) {
        while self.d.len() % a != 0 {
            self.d.push(0);
        }
    }
}

impl Obj {
    pub fn bytes(&self) -> Vec<u8> {
        match self.format {
            Format::Elf { wide, little, machine } => self.elf(wide, little, machine),
            Format::Coff { machine } => self.coff(machine),
            Format::MachO { cpu } => self.macho(cpu),
        }
    }

    fn elf(&self, wide: bool, little: bool, machine: u16) -> Vec<u8> {
        struct Sec {
            name: &'static str,
            ty: u32,
            flags: u64,
            data: Vec<u8>,
            link: u32,
            info: u32,
            entsize: u64,
        }
        let sec = |name, ty, flags, data| Sec { name, ty, flags, data, link: 0, info: 0, entsize: 0 };
        let mut secs = vec![sec("", 0, 0, vec![])];
        let mut text = 0;
        if self.code {
            text = secs.len();
            secs.push(sec(".text", 1, 2 | 4, vec![0xc3; 16]));
        }
        let data = secs.len();
        secs.push(sec(".data", 1, 2 | 1, vec![0; 16]));
        let gdb = secs.len();
        secs.push(sec(".debug_gdb_scripts", 1, 2, vec![1, 0]));
        match self.note {
            Note::Plain => secs.push(sec(".note.GNU-stack", 1, 0, vec![])),
            Note::Exec => secs.push(sec(".note.GNU-stack", 1, 4, vec![])),
            Note::Absent => {}
        }
        // symbols: locals first
        let mut order: Vec<&Sym> = self.syms.iter().filter(|s| s.bind == Bind::Local).collect();
        let locals = order.len();
        order.extend(self.syms.iter().filter(|s| s.bind != Bind::Local));
        let mut strtab = vec![0u8];
        let mut st = Buf { d: vec![0; if wide { 24 } else { 16 }], little, wide };
        for s in order {
            let name = strtab.len() as u64;
            strtab.extend_from_slice(s.name.as_bytes());
            strtab.push(0);
            let bind = match s.bind {
                Bind::Local => 0,
                Bind::Global => 1,
                Bind::Weak => 2,
            };
            let (shndx, ty) = match s.place {
                Place::Undefined => (0, 0),
                Place::Text => (if self.code { text } else { data }, 2),
                Place::Data => (data, 1),
                Place::Gdb => (gdb, 1),
                Place::Absolute => (0xfff1, 0),
            };
            let info = bind << 4 | ty;
            let other = match s.vis {
                Vis::Default => 0,
                Vis::Hidden => 2,
                Vis::Protected => 3,
            };
            let other = if s.place == Place::Undefined { 0 } else { other };
            st.n(name, 4);
            if wide {
                st.n(info, 1);
                st.n(other, 1);
                st.n(shndx as u64, 2);
                st.n(0, 8);
                st.n(0, 8);
            } else {
                st.n(0, 4);
                st.n(0, 4);
                st.n(info, 1);
                st.n(other, 1);
                st.n(shndx as u64, 2);
            }
        }
        let link = secs.len() as u32 + 1;
        secs.push(Sec { name: ".symtab", ty: 2, flags: 0, data: st.d, link, info: locals as u32 + 1, entsize: if wide { 24 } else { 16 } });
        secs.push(sec(".strtab", 3, 0, strtab));
        let mut names = vec![0u8];
        let mut name_at = vec![];
        for s in secs.iter().map(|s| s.name).chain([".shstrtab"]) {
            name_at.push(names.len() as u64);
            names.extend_from_slice(s.as_bytes());
            names.push(0);
        }
        secs.push(sec(".shstrtab", 3, 0, names));

        let mut phdrs: Vec<(u32, u32)> = vec![];
        if let Kind::Program { dynamic, exec } = self.kind {
            if dynamic {
                phdrs.push((3, 4));
            }
            phdrs.push((1, 5));
            phdrs.push((0x6474_e551, 6 | exec as u32));
        }
        let (eh, ph, sh) = if wide { (64, 56, 64) } else { (52, 32, 40) };
        let mut b = Buf { d: vec![], little, wide };
        b.d.extend_from_slice(&[0x7f, b'E', b'L', b'F', 1 + wide as u8, 2 - little as u8, 1, self.os]);
        b.d.extend_from_slice(&[0; 8]);
        b.n(if self.kind == Kind::Object { 1 } else { 3 }, 2);
        b.n(machine as u64, 2);
        b.n(1, 4);
        b.word(0);
        b.word(if phdrs.is_empty() { 0 } else { eh });
        let shoff_at = b.d.len();
        b.word(0);
        b.n(self.flags as u64, 4);
        b.n(eh, 2);
        b.n(if phdrs.is_empty() { 0 } else { ph }, 2);
        b.n(phdrs.len() as u64, 2);
        b.n(sh, 2);
        b.n(secs.len() as u64, 2);
        b.n(secs.len() as u64 - 1, 2);
        assert_eq!(b.d.len(), eh as usize);
        for (ty, fl) in phdrs {
            b.n(ty as u64, 4);
            if wide {
                b.n(fl as u64, 4);
            }
            for _ in 0..5 {
                b.word(0);
            }
            if !wide {
                b.n(fl as u64, 4);
            }
            b.word(8);
        }
        let mut offs = vec![];
        for s in &secs {
            b.align(8);
            offs.push(b.d.len() as u64);
            b.d.extend_from_slice(&s.data);
        }
        b.align(8);
        let shoff = b.d.len() as u64;
        for (i, s) in secs.iter().enumerate() {
            b.n(name_at[i], 4);
            b.n(s.ty as u64, 4);
            b.word(s.flags);
            b.word(0);
            b.word(if i == 0 { 0 } else { offs[i] });
            b.word(s.data.len() as u64);
            b.n(s.link as u64, 4);
            b.n(s.info as u64, 4);
            b.word(if i == 0 { 0 } else { 1 });
            b.word(s.entsize);
        }
        let mut t = Buf { d: vec![], little, wide };
        t.word(shoff);
        b.d[shoff_at..shoff_at + t.d.len()].copy_from_slice(&t.d);
        b.d
    }

    fn coff(&self, machine: u16) -> Vec<u8> {
        let mut b = Buf { d: vec![], little: true, wide: false };
        let mut names: Vec<&str> = vec![];
        if self.code {
            names.push(".text");
        }
        names.push(".data");
        let data = names.len() as u64;
        let raw = 20 + 40 * names.len();
        let symoff = raw + 16 * names.len();
        b.n(machine as u64, 2);
        b.n(names.len() as u64, 2);
        b.n(0, 4);
        b.n(symoff as u64, 4);
        b.n(self.syms.len() as u64, 4);
        b.n(0, 2);
        b.n(0, 2);
        for (i, n) in names.iter().enumerate() {
            let mut f = n.as_bytes().to_vec();
            f.resize(8, 0);
            b.d.extend_from_slice(&f);
            b.n(0, 4);
            b.n(0, 4);
            b.n(16, 4);
            b.n((raw + 16 * i) as u64, 4);
            b.n(0, 4);
            b.n(0, 4);
            b.n(0, 4);
            b.n(if *n == ".text" { 0x6050_0020 } else { 0xc050_0040 }, 4);
        }
        for _ in &names {
            b.d.extend_from_slice(&[0xc3; 16]);
        }
        let mut strings: Vec<u8> = vec![];
        for s in &self.syms {
            if s.name.len() <= 8 {
                let mut f = s.name.as_bytes().to_vec();
                f.resize(8, 0);
                b.d.extend_from_slice(&f);
            } else {
                b.n(0, 4);
                b.n(4 + strings.len() as u64, 4);
                strings.extend_from_slice(s.name.as_bytes());
                strings.push(0);
            }
            let section = match s.place {
                Place::Undefined => 0,
                Place::Text => 1,
                Place::Data | Place::Gdb => data,
                Place::Absolute => 0xffff,
            };
            b.n(0, 4);
            b.n(section, 2);
            b.n(if s.place == Place::Text { 0x20 } else { 0 }, 2);
            b.n(if s.bind == Bind::Local { 3 } else { 2 }, 1);
            b.n(0, 1);
        }
        b.n(4 + strings.len() as u64, 4);
        b.d.extend_from_slice(&strings);
        b.d
    }

    fn macho(&self, cpu: u32) -> Vec<u8> {
        let mut b = Buf { d: vec![], little: true, wide: true };
        let seg = 72 + 80 * 2;
        let build = if self.platform.is_some() { 24 } else { 0 };
        let cmds = seg + build + 24;
        let raw = 32 + cmds;
        let symoff = raw + 32;
        let stroff = symoff + 16 * self.syms.len();
        b.n(0xfeed_facf, 4);
        b.n(cpu as u64, 4);
        b.n(if cpu & 0xff == 7 { 3 } else { 0 }, 4);
        b.n(1, 4);
        b.n(2 + (build != 0) as u64, 4);
        b.n(cmds as u64, 4);
        b.n(0x2000, 4);
        b.n(0, 4);
        b.n(0x19, 4);
        b.n(seg as u64, 4);
        b.d.extend_from_slice(&[0; 16]);
        b.n(0, 8);
        b.n(32, 8);
        b.n(raw as u64, 8);
        b.n(32, 8);
        b.n(7, 4);
        b.n(7, 4);
        b.n(2, 4);
        b.n(0, 4);
        for (i, (s, g, fl)) in [("__text", "__TEXT", 0x8000_0400u64), ("__data", "__DATA", 0)].iter().enumerate() {
            for n in [s, g] {
                let mut f = n.as_bytes().to_vec();
                f.resize(16, 0);
                b.d.extend_from_slice(&f);
            }
            b.n(16 * i as u64, 8);
            b.n(16, 8);
            b.n((raw + 16 * i) as u64, 4);
            b.n(0, 4);
            b.n(0, 4);
            b.n(0, 4);
            b.n(*fl, 4);
            b.n(0, 4);
            b.n(0, 4);
            b.n(0, 4);
        }
        if let Some(p) = self.platform {
            b.n(0x32, 4);
            b.n(24, 4);
            b.n(p as u64, 4);
            b.n(0x000b_0000, 4);
            b.n(0x000b_0000, 4);
            b.n(0, 4);
        }
        let mut strings: Vec<u8> = vec![0];
        let mut syms = Buf { d: vec![], little: true, wide: true };
        for s in &self.syms {
            let at = strings.len() as u64;
            strings.extend_from_slice(s.name.as_bytes());
            strings.push(0);
            let (ty, sect) = match s.place {
                Place::Undefined => (0, 0),
                Place::Text => (0xe, 1),
                Place::Data | Place::Gdb => (0xe, 2),
                Place::Absolute => (2, 0),
            };
            let ext = match (s.bind, s.vis, s.place) {
                (_, _, Place::Undefined) => 1,
                (Bind::Local, ..) => 0,
                (_, Vis::Hidden, _) => 0x11,
                _ => 1,
            };
            syms.n(at, 4);
            syms.n(ty | ext, 1);
            syms.n(sect, 1);
            syms.n(if s.bind == Bind::Weak { 0x80 } else { 0 }, 2);
            syms.n(0, 8);
        }
        b.n(2, 4);
        b.n(24, 4);
        b.n(symoff as u64, 4);
        b.n(self.syms.len() as u64, 4);
        b.n(stroff as u64, 4);
        b.n(strings.len() as u64, 4);
        assert_eq!(b.d.len(), raw);
        b.d.extend_from_slice(&[0xc3; 32]);
        b.d.extend_from_slice(&syms.d);
        b.d.extend_from_slice(&strings);
        b.d
    }
}

/// An archive in the GNU layout, with or without an index of symbols and with short or long names.
pub fn archive(members: &[Vec<u8>], index: bool, long: bool) -> Vec<u8> {
    let mut d = b"!<arch>\n".to_vec();
    let mut put = |name: &str, body: &[u8]| {
        d.extend_from_slice(format!("{name:<16}{:<12}{:<6}{:<6}{:<8}{:<10}`\n", 0, 0, 0, 644, body.len()).as_bytes());
        d.extend_from_slice(body);
        if body.len() % 2 == 1 {
            d.push(b'\n');
        }
    };
    if index {
        put("/", &[0, 0, 0, 0]);
    }
    let mut table = String::new();
    let mut names = vec![];
    for i in 0..members.len() {
        if long {
            names.push(format!("/{}", table.len()));
            table.push_str(&format!("a_member_with_a_long_name_{i}.o/\n"));
        } else {
            names.push(format!("m{i}.o/"));
        }
    }
    if long {
        put("//", table.as_bytes());
    }
    for (n, m) in names.iter().zip(members) {
        put(n, m);
    }
    d
}

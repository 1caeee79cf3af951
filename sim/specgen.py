"""Seeded generation of spec files RPM accepts."""

ARCHES = ["x86_64", "aarch64", "ppc64le", "x86_64_v2", "86_64", "%{ix86}", "%{nil}", "noarch"]

# conditions over macros that are defined above their use, once
CONDS = [
    "0%{?flag}",
    "! 0%{?flag}",
    '"%{foo}" == "v1"',
    '"%{foo}" != "v1"',
    "%{with feat}",
    "%{without feat}",
    "0%{?nope}",
    "0%{?nope} || 0%{?flag}",
    "0%{?flag} && %{with feat}",
    "0%{?dist:1}",
    "1",
    "0",
    "%{num} >= 3",
    "0%{?xtra}",
    "0%{?opt:1} && 0%{?flag}",
    '"%{?nope}"',
    '"%{foo}"',
    '"%{?flag}"',
    '"%{?flag}" || "%{?nope}"',
    '"%{?nope}" && 1',
    'v"%{num}" >= v"3"',
    "%{num} > 2 ? 0 : 1",
    "%{num} - 3",
    "(%{num} == 2) || !(%{num} < 4)",
]


def condition(rng):
    r = rng.random()
    if r < 0.75:
        first = "%if " + rng.choice(CONDS)
        if rng.random() < 0.06 and "?" not in first.replace("{?", "").replace("{!?", ""):
            # goes on on the next line
            first += rng.choice([" || \\\n  0", " && \\\n  1", " && \\\n1 || \\\n  0"])
        return first
    if r < 0.9:
        return rng.choice(["%ifarch ", "%ifnarch "]) + " ".join(
            rng.sample(ARCHES, rng.randrange(1, 3))
        )
    return rng.choice(["%ifos linux", "%ifnos linux", "%ifos darwin"])


class Gen:
    def __init__(self, rng, ident):
        self.rng = rng
        self.ident = ident
        self.nsrc = 0
        self.npatch = 0
        self.serial = 0

    def uniq(self):
        self.serial += 1
        return f"{self.ident}{self.serial}"

    def leaf(self, depth):
        """One preamble line."""
        rng = self.rng
        r = rng.random()
        if r < 0.22:
            return [f"BuildRequires:  br-{self.uniq()}"]
        if r < 0.4:
            return [f"Requires:       req-{self.uniq()} = %{{version}}"]
        if r < 0.52:
            n = self.nsrc
            self.nsrc += 1
            ext = rng.choice(["tar.gz", "txt", "zip", "tar.xz", "conf"])
            where = rng.choice(["", "", "https://example.org/%{name}/", "%{url}/dl/"])
            return [f"Source{n}:        {where}s{n}-{self.ident}.{ext}"]
        if r < 0.62:
            n = self.npatch
            self.npatch += 1
            return [f"Patch{n}:         p{n}-{self.ident}.patch"]
        if r < 0.7:
            return [f"%global m_{self.uniq()} %{{foo}}-{rng.randrange(9)}"]
        if r < 0.76:
            return [f"# comment {self.uniq()} %%{{foo}}"]
        if r < 0.8:
            return [f"%define f_{self.uniq()}() arg %1 %{{foo}}"]
        if r < 0.83:
            return [f"%define ml_{self.uniq()} first \\", "  second %{foo} \\", "  third"]
        if r < 0.84:
            # conditions in the body of a macro are not conditions
            u = self.uniq()
            if depth:
                return [f"%define mc_{u} first \\", "%if 0 \\", "x \\", "%endif"]
            return rng.choice(
                [
                    [f"%define mc_{u} first \\", "%if 0 \\", "  third"],
                    [f"%define mc_{u} first \\", "%if 1 \\", "  x \\", "%else \\", "  third"],
                    [f"%define mc_{u} %{{expand:", "%if 0", "  third}"],
                ]
            )
        if r < 0.88:
            return ["%{!?inline: %global inline_" + self.uniq() + " 1}"]
        if r < 0.91:
            return [f"Provides:       p-{self.uniq()} = %{{num}}"]
        return [""]

    def block(self, depth):
        rng = self.rng
        out = []
        for _ in range(rng.randrange(1, 4)):
            if depth < 3 and rng.random() < 0.25:
                out += self.cond(depth + 1)
            else:
                out += self.leaf(depth)
        return out

    def cond(self, depth):
        rng = self.rng
        out = [rng.choice(["", "", "", "", " ", "\t"]) + condition(rng) + rng.choice(["", "", "", "", "  ", "\t"])]
        out += self.block(depth)
        while rng.random() < 0.35:
            if rng.random() < 0.2:
                out.append(rng.choice(["%elifarch ", "%elifos "]) + rng.choice(["x86_64", "ppc64", "linux", "linux x86_64"]))
            else:
                out.append("%elif " + rng.choice(CONDS))
            out += self.block(depth)
        if rng.random() < 0.5:
            out.append("%else")
            out += self.block(depth)
            if rng.random() < 0.3:
                out.append(f"%bcond_without late{self.uniq()}")
        out.append(rng.choice(["%endif"] * 6 + [" %endif", "%endif "]))
        return out


def gen_spec(rng, ident, sources=True, cond=True):
    """A spec file; `ident` makes its values differ from those of other specs."""
    g = Gen(rng, ident)
    lines = []
    lines.append(f"%global who {ident}")
    lines.append(f"%global foo {rng.choice(['v1', 'v2', 'v3' + ident])}")
    lines.append(f"%global num {rng.randrange(1, 6)}")
    if rng.random() < 0.5:
        lines.append(f"%global flag {rng.choice(['0', '1'])}")
    lines.append(rng.choice(["%bcond_with feat", "%bcond_without feat"]))
    if rng.random() < 0.4:
        lines.append("%define opt() %{who}:%1")
    if rng.random() < 0.3:
        lines.append(f"%{{!?xtra: %global xtra {rng.randrange(2)}}}")
    if rng.random() < 0.3:
        lines.append(f"%global only_{ident} yes-%{{who}}")
    lines.append("")
    lines.append(f"Name:           pkg{ident}")
    lines.append(f"Version:        {rng.randrange(1, 9)}.%{{num}}")
    release = rng.choice(["1%{?dist}", "0.3.%{foo}%{?dist}", "7", "%{drel}"])
    if release == "%{drel}":
        lines.insert(0, "%global drel 4%{?dist}")
    lines.append("Release:        " + release)
    lines.append(f"Summary:        about %{{who}}")
    lines.append("License:        MIT")
    if rng.random() < 0.6:
        lines.append(f"Epoch:          {rng.randrange(3)}")
    lines.append("URL:            https://example.org/%{name}")
    if sources:
        lines.append(f"Source{g.nsrc}:        %{{name}}-%{{version}}.tar.gz")
        g.nsrc += 1
    for _ in range(rng.randrange(1, 5)):
        if cond and rng.random() < 0.45:
            lines += g.cond(1)
        else:
            lines += g.leaf(0)
    lines += ["", "%description", "Text of %{who}.", ""]
    if rng.random() < 0.4:
        lines += ["%package sub", "Summary: sub %{who}", "Requires: %{name}", ""]
        lines += ["%description sub", "Sub.", ""]
    lines.append("%prep")
    r = rng.random()
    if not sources:
        pass
    elif r < 0.4:
        lines.append("%setup -q -n %{name}-%{version}")
    elif r < 0.7:
        lines.append("%autosetup -p1 -N")
    lines += ["echo %{who}", ""]
    lines += ["%build", "echo build %{foo}", "", "%install", ""]
    lines += ["%files", ""]
    lines += [
        "%changelog",
        "* Tue May 07 2024 Some Body <some@body.org> - 1.0-2",
        f"- second {ident}",
        "",
        "* Mon May 06 2024 Some Body <some@body.org> - 1.0-1",
        "- first",
    ]
    return "\n".join(lines) + "\n"

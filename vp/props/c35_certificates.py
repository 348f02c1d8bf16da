"""Certificates against specs/Certificates.tla."""
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile

from cryptography import x509
from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.x509.oid import NameOID

from epsilon.scripts import certcreate
from vp.bind import Binding, tla

SHORT = dict(country="C", state="s", city="c", organization="o", unit="u", hostname="h", email="e",
             filename="f", serial="S")
OIDS = {NameOID.COUNTRY_NAME: "C", NameOID.STATE_OR_PROVINCE_NAME: "ST", NameOID.LOCALITY_NAME: "L",
        NameOID.ORGANIZATION_NAME: "O", NameOID.ORGANIZATIONAL_UNIT_NAME: "OU", NameOID.COMMON_NAME: "CN",
        NameOID.EMAIL_ADDRESS: "email"}


def names(n):
    r = {}
    for a in n:
        k = OIDS.get(a.oid, a.oid.dotted_string)
        r[k] = a.value if k not in r else [r[k], a.value]
    return r


class Adapter(object):
    def __init__(self, init):
        self.top = os.path.realpath(tempfile.mkdtemp(prefix="vp-cert-"))
        self.given = []
        self.runs = 0
        self.seen = {}
        self.keys = set()

    def files(self):
        """Each file and the run which wrote it."""
        r = []
        for n in sorted(os.listdir(self.top)):
            with open(os.path.join(self.top, n), "rb") as f:
                data = f.read()
            if self.seen.get(n, (None,))[0] != data:
                self.seen[n] = (data, self.runs)
            r.append([n, self.seen[n][1]])
        return r

    def do(self, e):
        k = e["op"]
        if k == "option":
            self.given.append((e["o"], e["v"]))
            return []
        args = []
        for i, (o, v) in enumerate(self.given):
            if e.get("style") == "short":
                args.extend(["-" + SHORT[o], v])
            else:
                long = "serial-number" if o == "serial" else o
                args.extend(["--%s=%s" % (long, v)] if i % 2 else ["--" + long, v])
        self.given = []
        if k == "bad":
            args.append("--%s=%s" % ("serial-number" if e["o"] == "serial" else e["o"], e["v"]))
        elif k == "unknown":
            args.append("--nonesuch")
        elif e["quiet"]:
            args.append("-q" if e["style"] == "short" else "--quiet")
        here = os.getcwd()
        out = io.StringIO()
        try:
            os.chdir(self.top)
            with contextlib.redirect_stdout(out):
                if len(args) % 2:
                    cert = certcreate.main(args)
                else:       # those of the process
                    old, sys.argv = sys.argv, ["certcreate"] + args
                    try:
                        cert = certcreate.main()
                    finally:
                        sys.argv = old
        except (SystemExit, Exception):
            return {"refused": True, "files": self.files()}
        finally:
            os.chdir(here)
        self.runs += 1
        files = self.files()
        new = [n for n, run in files if run == self.runs]
        if len(new) != 1:
            return {"files": files}
        with open(os.path.join(self.top, new[0]), "rb") as f:
            pem = f.read()
        blocks = re.findall(b"-----BEGIN ([A-Z ]+)-----.*?-----END \\1-----\n?", pem, re.S)
        x = x509.load_pem_x509_certificate(pem[pem.index(b"-----BEGIN CERTIFICATE"):])
        key = serialization.load_pem_private_key(
            pem[re.search(b"-----BEGIN [A-Z ]*PRIVATE KEY", pem).start():], None)
        pub = key.public_key().public_numbers()
        try:
            x.public_key().verify(x.signature, x.tbs_certificate_bytes, padding.PKCS1v15(),
                                  x.signature_hash_algorithm)
            signed = True
        except Exception:
            signed = False
        fresh = pub.n not in self.keys and cert.serialNumber() == x.serial_number
        self.keys.add(pub.n)
        return {"subject": names(x.subject), "issuer": names(x.issuer), "serial": str(x.serial_number),
                "keys": sum(b.endswith(b"PRIVATE KEY") for b in blocks),
                "certificates": sum(b == b"CERTIFICATE" for b in blocks),
                "match": pub == x.public_key().public_numbers(), "signed": signed, "fresh": fresh,
                "said": bool(out.getvalue()), "files": files}

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


def project(out):
    if isinstance(out, dict) and isinstance(out.get("files"), list):
        return dict(out, files=sorted(out["files"]))
    return out


VALUES = dict(country=["US", "DE", "FR"], state=["New York", "B", "x y z"], city=["Paris", "L", " P"],
              organization=["Acme, Inc.", "O", "a=b", " Acme ", "ACME"], unit=["U", "Dev/Ops", "R & D ", "-"], hostname=["example.com", "*.x.org", "H", "Example.COM"],
              email=["a@b.c", "me@example.com", "Me@Example.Com"], filename=["server.pem", "a.pem", "b c"],
              serial=["1", "2", "4096", "1234567890123", "0", "007", "123456789012345678901234567890"])
BAD = dict(country=["USA", "D", ""], serial=["x", "", "1.5"])


def generate(rng):
    def gen():
        for _ in range(rng.randrange(1, 4)):
            for _ in range(rng.randrange(6)):
                o = rng.choice(sorted(VALUES))
                yield {"op": "option", "o": o, "v": rng.choice(VALUES[o])}
            if rng.random() < .15:
                o = rng.choice(sorted(BAD))
                yield {"op": "bad", "o": o, "v": rng.choice(BAD[o])}
            elif rng.random() < .1:
                yield {"op": "unknown"}
            else:
                yield {"op": "create", "quiet": rng.random() < .5, "style": rng.choice(["long", "short"])}
    return None, gen()


def check(run):
    b = Binding(run, "Certificates", Adapter, project)
    b.more = 1
    b.cover(dict(Options=tla({k: set(v[1:2]) for k, v in VALUES.items()}), MaxGiven="1", MaxRuns="1"),
            (), ("OneFile", "Kept"), name="each option", randoms=(0, 0))
    b.cover(dict(Options=tla({"filename": {"server.pem", "a.pem"}}), MaxGiven="1", MaxRuns="2"),
            (), ("OneFile", "Kept"), name="files", randoms=(0, 0), budget=run.pick(20, 600))
    b.histories(dict(Options="[none |-> {}]", MaxGiven="0", MaxRuns="0"), generate, run.pick(30, 2000))

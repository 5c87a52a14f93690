#!/usr/bin/env python3
"""Prepare an offline cargo home under /verif/.build.

The sandbox's vendored crate `matrixmultiply` lost a few documentation files
(docs/*.log), which makes cargo refuse to build it again.  We build from a
directory of symlinks to the sandbox's vendored crates, with that one crate
copied and its checksum list cut down to the files that exist.
"""
import json, os, shutil
SRC = "/opt/vp/vendor"
B = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".build")
V = f"{B}/vendor"
H = f"{B}/cargo-home"
os.makedirs(V, exist_ok=True)
os.makedirs(H, exist_ok=True)
for c in sorted(os.listdir(SRC)):
    d = f"{V}/{c}"
    if os.path.lexists(d):
        continue
    ck = f"{SRC}/{c}/.cargo-checksum.json"
    missing = []
    if os.path.exists(ck):
        data = json.load(open(ck))
        missing = [f for f in data["files"] if not os.path.exists(f"{SRC}/{c}/{f}")]
    # a crate with a build script may write beside its sources
    if missing or os.path.exists(f"{SRC}/{c}/build.rs") or c.endswith("-sys") or c == "mond":
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(f"{SRC}/{c}", tmp, symlinks=True)
        for f in missing:
            del data["files"][f]
        os.chmod(tmp, 0o755)
        json.dump(data, open(f"{tmp}/.cargo-checksum.json", "w"))
        os.rename(tmp, d)
    else:
        os.symlink(f"{SRC}/{c}", d)
cfg = open("/opt/vp/cargo-home/config").read().replace('"/opt/vp/vendor"', json.dumps(V))
assert json.dumps(V) in cfg
# The sandbox has no OpenSSL; the project is linked with every OpenSSL function
# at address 0.  HTTP sinks construct a TLS context they never use over plain
# HTTP, so here the functions go to one stub that reports success.
import subprocess
open(f"{B}/ossl.c", "w").write("long mc_ossl_stub(void) { return 1; }\n")
subprocess.check_call(["gcc", "-O1", "-fPIC", "-c", f"{B}/ossl.c", "-o", f"{B}/ossl.o"])
args = open("/opt/vp/openssl-absent.args").read().replace("=0\n", "=mc_ossl_stub\n")
args += f"{B}/ossl.o\n-rdynamic\n"
# librdkafka's client is played by the harness (props/kafka.rs)
for f in ("new destroy poll producev set_log_level opaque topic_name message_timestamp "
          "message_headers outq_len conf_set conf_set_opaque conf_set_dr_msg_cb").split():
    args += f"-Wl,--wrap=rd_kafka_{f}\n"
open(f"{B}/link.args", "w").write(args)
assert "@/opt/vp/openssl-absent.args" in cfg
cfg = cfg.replace("@/opt/vp/openssl-absent.args", f"@{B}/link.args")
open(f"{H}/config", "w").write(cfg)

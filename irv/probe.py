"""Object layouts and enumerator values, taken from the current headers by a small program."""
import os, re, subprocess, json
from .spec import REPO, CXX, FLAGS, BuildError

JWT = ['jwt_', 'header_str_', 'header_str_base64url_', 'header_pb_', 'payload_str_', 'payload_str_base64url_', 'payload_pb_', 'signature_',
       'alg_', 'kid_', 'iss_', 'audiences_', 'sub_', 'iat_', 'nbf_', 'exp_', 'jti_']
PUBKEY = ['hmac_key_', 'kid_', 'kty_', 'alg_', 'crv_', 'rsa_', 'ec_key_', 'okp_key_raw_', 'bio_', 'x509_']

def statuses():
    s = open(os.path.join(REPO, 'jwt_verify_lib/status.h')).read()
    s = re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', '', s, flags=re.S))
    m = re.search(r'enum\s+class\s+Status[^{]*\{(.*?)\}', s, re.S)
    return [re.match(r'\s*(\w+)', e).group(1) for e in m.group(1).split(',') if e.strip()]

def probe(workdir):
    src = os.path.join(workdir, 'probe.cc')
    out = ['#include <cstdio>', '#include <cstddef>', '#include "jwt_verify_lib/jwt.h"', '#include "jwt_verify_lib/jwks.h"',
           '#include "jwt_verify_lib/check_audience.h"', '#include "jwt_verify_lib/struct_utils.h"',
           'using namespace google::jwt_verify;', 'template<int N> struct X; ',
           'constexpr long vals[] = {']
    names = []
    def add(n, e):
        names.append(n)
        out.append('  (long)(%s),' % e)
    for f in JWT: add('Jwt.' + f, 'offsetof(Jwt, %s)' % f)
    for f in PUBKEY: add('Pubkey.' + f, 'offsetof(Jwks::Pubkey, %s)' % f)
    add('sizeof.Jwt', 'sizeof(Jwt)'); add('sizeof.Pubkey', 'sizeof(Jwks::Pubkey)'); add('sizeof.Jwks', 'sizeof(Jwks)')
    add('sizeof.WithStatus', 'sizeof(WithStatus)'); add('sizeof.CheckAudience', 'sizeof(CheckAudience)')
    add('Jwks.keys_', 'offsetof(Jwks, keys_)'); add('Jwks.status_', 'offsetof(Jwks, status_)')
    for s in statuses(): add('Status.' + s, 'Status::' + s)
    add('Type.JWKS', 'Jwks::JWKS'); add('Type.PEM', 'Jwks::PEM')
    for r in ('OK', 'MISSING', 'WRONG_TYPE', 'OUT_OF_RANGE'): add('FindResult.' + r, 'StructUtils::' + r)
    out.append('};')
    out.append('extern "C" const long jwtprobe[sizeof(vals)/8] = {')
    out += ['  vals[%d],' % i for i in range(len(names))]
    out.append('};')
    open(src, 'w').write('\n'.join(out))
    r = subprocess.run([CXX] + FLAGS + ['-w', '-fno-access-control', '-O0', '-S', '-emit-llvm', src, '-o', src + '.ll'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-2000:])
    m = re.search(r'@jwtprobe = .*?\[(\d+ x i64)\] \[(.*?)\]', open(src + '.ll').read())
    v = [int(x.split()[1]) for x in m.group(2).split(',')]
    return dict(zip(names, v))

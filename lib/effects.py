"""Which library calls change the world, use the network or run programs."""
import re

PROCESS = {'subprocess.' + x for x in (
    'call', 'check_call', 'check_output', 'Popen', 'run', 'getoutput',
    'getstatusoutput')} | {
    'os.' + x for x in ('system', 'popen', 'popen2', 'popen3', 'popen4',
                        'startfile', 'fork', 'forkpty', 'kill', 'killpg',
                        'posix_spawn', 'posix_spawnp')} | {
    'os.%s%s' % (a, b) for a in ('exec', 'spawn') for b in (
        'l', 'le', 'lp', 'lpe', 'v', 've', 'vp', 'vpe')} | {
    'commands.getoutput', 'commands.getstatusoutput', 'pty.spawn',
    'asyncio.create_subprocess_exec', 'asyncio.create_subprocess_shell',
    'multiprocessing.Process'}
WRITE = {'os.' + x for x in (
    'makedirs', 'mkdir', 'remove', 'unlink', 'rename', 'renames', 'replace',
    'rmdir', 'removedirs', 'symlink', 'link', 'chmod', 'chown', 'lchown',
    'truncate', 'ftruncate', 'utime', 'mkfifo', 'mknod', 'write')} | {
    'shutil.' + x for x in (
        'copy', 'copy2', 'copyfile', 'copytree', 'move', 'rmtree',
        'copyfileobj', 'copymode', 'copystat', 'chown', 'make_archive',
        'unpack_archive')} | {
    'tempfile.' + x for x in (
        'mkdtemp', 'mkstemp', 'mktemp', 'NamedTemporaryFile',
        'TemporaryFile', 'TemporaryDirectory', 'SpooledTemporaryFile')} | {
    'shelve.open', 'dbm.open', 'sqlite3.connect'}
OPEN = {'builtins.open', 'io.open', 'codecs.open', 'os.open', 'os.fdopen',
        'gzip.open', 'bz2.open', 'zipfile.ZipFile', 'tarfile.open',
        'builtins.file'}
NET = re.compile(
    r'^(urllib|urllib2|urllib3|http|httplib|socket|ftplib|requests|smtplib|'
    r'telnetlib|xmlrpc|ssl|asyncio\.open_connection|six\.moves\.urllib|'
    r'six\.moves\.http_client)(\.|$)')
NET_PURE = re.compile(r'^(urllib|six\.moves\.urllib)\.(parse|error|response)|'
                      r'\.(quote|unquote|urlparse|urlsplit|urljoin|HTTPError|'
                      r'URLError|timeout|error|HTTPException|urlencode|'
                      r'gaierror|Request)$')
# methods of file-system objects
WMETHODS = {'write_text', 'write_bytes', 'mkdir', 'unlink', 'touch',
            'symlink_to', 'hardlink_to', 'rmdir', 'extractall'}


def kind(name, args=(), const=None):
    """'process', 'write', 'open', 'net' or None for a library callable."""
    n = name[4:] if name.startswith('ext:') else name
    if '()' in n:
        return 'write' if n.split('.')[-1] in WMETHODS else None
    if n in PROCESS:
        return 'process'
    if n in WRITE:
        return 'write'
    if n in OPEN:
        return 'open'
    if NET.match(n) and not NET_PURE.search(n):
        return 'net'
    if n.startswith('.') and n[1:] in WMETHODS:
        return 'write'
    return None


def writes_mode(mode):
    """Does a constant open() mode allow writing (None: unknown)?"""
    if mode is None:
        return None
    if not isinstance(mode, str):
        return None
    return any(c in mode for c in 'wax+')

L = 'xylem/load_url.py'
src = open('/repo/' + L).read()
LOOP = src[src.index("    retry = max(retry, 0)"):src.index("    _, params = cgi")]
FOR = '''    data = None
    for attempt in range(max(retry, 0) + 1):
        try:
            req = urlopen(url, timeout=timeout)
            data = req.read()
            break
        except HTTPError as e:
            if e.code != 503 or attempt >= retry:
                raise_from(DownloadFailure, "Failed to load url '{0}'.".
                           format(url), e)
        except (EnvironmentError, HTTPException) as e:
            reason = getattr(e, 'reason', e)
            if not isinstance(reason, socket.timeout) or attempt >= retry:
                raise_from(DownloadFailure, "Failed to load url '{0}'.".
                           format(url), e)
        time.sleep(retry_period)
'''
HELPER = '''    remaining = max(retry, 0)
    while True:
        try:
            req = urlopen(url, timeout=timeout)
            data = req.read()
            break
        except (EnvironmentError, HTTPException) as e:
            if not remaining or not _is_temporary(e):
                raise_from(DownloadFailure, "Failed to load url '{0}'.".
                           format(url), e)
            remaining -= 1
            time.sleep(retry_period)
'''
HELPDEF = '''def _is_temporary(e):
    if isinstance(e, HTTPError):
        return e.code == 503
    if isinstance(e, URLError):
        return isinstance(e.reason, socket.timeout)
    return isinstance(e, socket.timeout)


def load_url('''
EDITS = [
 ('ok', L, LOOP, FOR),
 ('ok', [(L, LOOP, HELPER), (L, "def load_url(", HELPDEF)]),
 ('bad', L, LOOP, FOR.replace("range(max(retry, 0) + 1)", "range(max(retry, 0) + 2)").replace(" or attempt >= retry", "")),
 ('bad', L, LOOP, FOR.replace(" or attempt >= retry", "").replace("range(max(retry, 0) + 1)", "range(retry + 1)")),
 ('bad', [(L, LOOP, HELPER), (L, "def load_url(", HELPDEF.replace("e.code == 503", "e.code >= 500"))]),
 ('bad', [(L, LOOP, HELPER), (L, "def load_url(", HELPDEF.replace("isinstance(e.reason, socket.timeout)", "False"))]),
 ('bad', L, "    retry = max(retry, 0)  # negative retry count causes infinite loop\n", ""),
 ('bad', L, "    retry = max(retry, 0)  # negative", "    retry = max(retry, 1)  # negative"),
 ('bad', L, "urlopen(url, timeout=timeout)", "urlopen(url)"),
 ('bad', L, "urlopen(url, timeout=timeout)", "urlopen(url, None, retry_period)"),
 ('bad', L, "if e.code == 503 and retry:", "if e.code == 503:"),
 ('bad', L, "if e.code == 503 and retry:", "if e.code == 503 and retry > 1:"),
 ('bad', L, "if e.code == 503 and retry:", "if e.code in (500, 503) and retry:"),
 ('bad', L, "if e.code == 503 and retry:", "if retry:"),
 ('bad', L, "if isinstance(e.reason, socket.timeout) and retry:\n                retry -= 1\n                time.sleep(retry_period)", "if isinstance(e.reason, socket.timeout) and retry:\n                retry -= 1"),
 ('bad', L, "if isinstance(e.reason, socket.timeout) and retry:\n                retry -= 1\n", "if isinstance(e.reason, socket.timeout) and retry:\n"),
 ('bad', L, "if isinstance(e.reason, socket.timeout) and retry:\n                retry -= 1\n                time.sleep(retry_period)", "if isinstance(e.reason, socket.timeout) and retry:\n                retry -= 1\n                time.sleep(timeout)"),
 ('bad', L, "        except (EnvironmentError, HTTPException) as e:", "        except HTTPException as e:"),
 ('bad', L, "        except (EnvironmentError, HTTPException) as e:", "        except EnvironmentError as e:"),
 ('bad', L, "            if isinstance(e, socket.timeout) and retry:\n                retry -= 1\n                time.sleep(retry_period)\n            else:\n                raise_from(DownloadFailure, \"Failed to load url '{0}'.\".\n                           format(url), e)", "            if isinstance(e, socket.timeout) and retry:\n                retry -= 1\n                time.sleep(retry_period)\n            else:\n                raise ValueError(url)"),
 ('bad', L, "            if isinstance(e, socket.timeout) and retry:\n                retry -= 1\n                time.sleep(retry_period)\n            else:\n                raise_from(DownloadFailure, \"Failed to load url '{0}'.\".\n                           format(url), e)", "            data = getattr(e, 'partial', b'')\n            break"),
 ('bad', L, "and retry:\n                retry -= 1\n                time.sleep(retry_period)\n            else:\n                raise_from(DownloadFailure, \"Failed to load url '{0}'.\".\n                           format(url), e)\n        else", "and retry:\n                retry += 1\n                time.sleep(retry_period)\n            else:\n                raise_from(DownloadFailure, \"Failed to load url '{0}'.\".\n                           format(url), e)\n        else"),
 ('ok', L, "if e.code == 503 and retry:", "if e.code in (503,) and retry > 0:"),
 ('ok', L, "            else:\n                raise_from(DownloadFailure, \"Failed to load url '{0}'.\".\n                           format(url), e)\n        else:\n            break", "                continue\n            raise_from(DownloadFailure, \"Failed to load url '{0}'.\".\n                       format(url), e)\n        else:\n            break"),
]
ENC = "    encoding = params.get('charset', 'utf-8')\n    return to_str(data, encoding=encoding)"
HEAD = "    _, params = cgi.parse_header(req.headers.get('Content-Type', ''))\n"
EDITS += [
    ('bad', L, ENC, "    encoding = params.get('charset', 'latin-1')\n    return to_str(data, encoding=encoding)"),
    ('bad', L, ENC, "    return to_str(data)"),
    ('bad', L, HEAD, "    _, params = cgi.parse_header(req.headers.get('Content-Encoding', ''))\n"),
    ('bad', L, ENC, "    encoding = params.get('charset') or req.headers.get('Content-Encoding') or 'utf-8'\n    return to_str(data, encoding=encoding)"),
    ('ok', L, ENC, "    encoding = params.get('charset') or 'utf-8'\n    return to_str(data, encoding=encoding)"),
    ('ok', L, ENC, "    encoding = 'utf-8'\n    if 'charset' in params:\n        encoding = params['charset']\n    return to_str(data, encoding)"),
    ('ok', L, ENC, "    return _decode(data, params)\n\n\ndef _decode(data, params):\n    return to_str(data, encoding=params.get('charset', 'utf-8'))"),
    ('ok', L, HEAD + ENC, "    content_type = req.headers.get('Content-Type') or ''\n    params = cgi.parse_header(content_type)[1]\n    try:\n        encoding = params['charset']\n    except KeyError:\n        encoding = 'utf-8'\n    return to_str(data, encoding=encoding)"),
]

M = 'xylem/commands/main.py'
O = 'xylem/os_support/impl.py'
EDITS = [
 ('bad', 'xylem/load_url.py', "class DownloadFailure(XylemError):", "class DownloadFailure(IOError):"),
 ('bad', 'xylem/installers/impl.py', "class InstallerError(XylemError):", "class InstallerError(RuntimeError):"),
 ('bad', 'xylem/exception.py', "class XylemError(Exception):", "class XylemError(BaseException):"),
 ('bad', 'xylem/exception.py', "class XylemInternalError(XylemError):", "class XylemInternalError(Exception):"),
 ('bad', 'xylem/load_url.py', "class DownloadFailure(XylemError):", "class DownloadFailure(XylemError):\n    def __init__(self, url, msg):\n        super(DownloadFailure, self).__init__(msg)\n"),
 ('bad', M, "            error(exc_to_str(e, tb=False, chain=True))\n        sys.exit(1)", "            error(exc_to_str(e, tb=False, chain=True))\n        sys.exit(0)"),
 ('bad', M, "            error(exc_to_str(e, tb=False, chain=True))\n        sys.exit(1)", "            error(exc_to_str(e, tb=False, chain=True))\n            sys.exit(1)"),
 ('bad', M, "            error(exc_to_str(e, tb=False, chain=True))\n        sys.exit(1)", "            pass\n        sys.exit(1)"),
 ('bad', M, "    except XylemError as e:", "    except XylemInternalError as e:"),
 ('bad', M, "    except (KeyboardInterrupt, EOFError):\n        info('')\n        sys.exit(1)", "    except (KeyboardInterrupt, EOFError):\n        info('')\n        result = 0"),
 ('bad', 'xylem/commands/update.py', "        info('')\n        sys.exit(1)", "        info('')\n        sys.exit(0)"),
 ('bad', 'xylem/commands/lookup.py', "        info('')\n        sys.exit(1)", "        info('')\n        return"),
 ('bad', 'xylem/commands/lookup.py', "    except (KeyboardInterrupt, EOFError):", "    except Exception:"
  ) if False else ('bad', 'xylem/commands/update.py', "    except (KeyboardInterrupt, EOFError):\n        info('')\n        sys.exit(1)", "    except Exception as e:\n        info(str(e))"),
 ('ok', M, "    except XylemError as e:", "    except Exception as e:"),
 ('ok', M, "        sys.exit(1)\n    except (KeyboardInterrupt", "        return sys.exit(2)\n    except (KeyboardInterrupt"),
 ('ok', M, "            error(exc_to_str(e, tb=False, chain=True))", "            message = exc_to_str(e, tb=False, chain=True)\n            error(message)"),
 ('ok', 'xylem/load_url.py', "class DownloadFailure(XylemError):", "class DownloadFailure(XylemError, IOError):"),
]

EX = 'xylem/exception.py'
EDITS += [
    ('bad', EX, 'while next_exc:',
     'while next_exc and next_exc is not exc.__context__:'),
    ('bad', EX, 'result.insert(0, ', 'result.append('),
    ('bad', EX, "exc.__cause__ = from_exc",
     "exc.__cause__ = from_exc.__cause__ or from_exc"),
    ('bad', 'xylem/commands/main.py', 'sys.exit(result or 0)',
     'sys.exit(0)'),
    ('ok', 'xylem/commands/main.py', 'sys.exit(result or 0)',
     'sys.exit(result if result else 0)'),
    ('ok', EX, "    result = []\n    next_exc = exc\n    next_tb = tb\n",
     "    next_exc, next_tb, result = exc, tb, list()\n"),
]

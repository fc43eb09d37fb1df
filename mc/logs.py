"""Capture of log records and snapshots of the logging configuration"""

import logging
import threading


class Capture(logging.Handler):
    """Records by thread"""

    def __init__(self):
        super().__init__(logging.NOTSET)
        self.by_thread = {}

    def emit(self, record):
        try:
            message = record.getMessage()
        except Exception as e:
            message = f"unformattable: {e}"
        self.by_thread.setdefault(threading.get_ident(), []).append(
            (record.levelno, record.name, message)
        )

    def take(self, ident=None):
        return self.by_thread.pop(ident or threading.get_ident(), [])


class enabled:
    """Everything is logged to a handler of the root logger meanwhile"""

    def __init__(self, level=logging.DEBUG):
        self.level = level

    def __enter__(self):
        root = logging.getLogger()
        self.old = (root.level, root.handlers[:], root.manager.disable)
        root.manager.disable = 0
        self.capture = Capture()
        root.handlers[:] = [self.capture]
        root.setLevel(self.level)
        return self.capture

    def __exit__(self, *args):
        root = logging.getLogger()
        root.handlers[:] = self.old[1]
        root.setLevel(self.old[0])
        root.manager.disable = self.old[2]
        for logger in root.manager.loggerDict.values():
            if isinstance(logger, logging.Logger):
                logger._cache.clear()
        root._cache.clear()


def snapshot():
    """Everything in the logging module a library could change"""
    loggers = {"root": logging.getLogger()}
    loggers.update(
        {
            name: logger
            for name, logger in logging.root.manager.loggerDict.items()
            if isinstance(logger, logging.Logger)
        }
    )
    return (
        tuple((n, getattr(logging, n)) for n in
              ("CRITICAL", "ERROR", "WARNING", "INFO", "DEBUG", "NOTSET", "FATAL", "WARN",
               "raiseExceptions", "logThreads", "logProcesses")),
        tuple(sorted(map(str, logging._levelToName.items()))),
        tuple(sorted(map(str, logging._nameToLevel.items()))),
        logging.root.manager.disable,
        logging.getLogRecordFactory(),
        logging.getLoggerClass(),
        id(logging.lastResort),
        logging.lastResort.level,
        tuple(
            (
                name, logger.level, logger.disabled, logger.propagate,
                tuple((id(h), h.level, tuple(map(id, h.filters)), id(h.formatter))
                      for h in logger.handlers),
                tuple(map(id, logger.filters)),
                tuple(getattr(logger, m).__qualname__
                      for m in ("log", "info", "debug", "warning", "handle")),
            )
            for name, logger in sorted(loggers.items())
        ),
        tuple(getattr(logging, m).__qualname__
              for m in ("log", "info", "debug", "warning", "getLogger", "disable")),
    )

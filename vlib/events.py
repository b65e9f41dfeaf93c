"""Logging events through every entry point, each identified by its message. Shared by several checks."""
KINDS = ['manual', 'handle', 'dot', 'deco', 'deco_error', 'async', 'with', 'with_bare', 'method', 'message', 'assert']


class Emitter:
    """Makes one record with the given message per emit() call."""
    def __init__(self, polog):
        self.polog = polog
        polog.config.levels(some_level=7)
        log = polog.log

        @log
        def function(text):
            polog.log.message(text)
            return text

        @log
        def failing(text):
            polog.log.message(text)
            raise ValueError(text)

        @log
        async def coroutine(text):
            polog.log.message(text)
            return text

        @log(message='other text')
        class Class:
            def method(self, text):
                polog.message(text)

        self.function = function
        self.failing = failing
        self.coroutine = coroutine
        self.object = Class()

    def emit(self, kind, text):
        polog = self.polog
        log = polog.log
        if kind == 'manual':
            log(text)
        elif kind == 'handle':
            polog.handle_log(text, level=3)
        elif kind == 'dot':
            log.some_level(text)
        elif kind == 'deco':
            self.function(text)
        elif kind == 'deco_error':
            try:
                self.failing(text)
            except ValueError:
                pass
        elif kind == 'async':
            made = self.coroutine(text)
            try:
                made.send(None)
            except StopIteration:
                pass
        elif kind == 'with':
            with log(text):
                pass
        elif kind == 'with_bare':
            with log as block:
                block(text)
        elif kind == 'method':
            self.object.method(text)
        elif kind == 'message':
            @log(message=text)
            def local():
                pass
            local()
        elif kind == 'assert':
            # Records only outside of the debug mode or under the politic "all": the caller must have set it.
            try:
                polog.ass(False, text)
            except AssertionError:
                pass

from concurrent.futures import Future, CancelledError, TimeoutError

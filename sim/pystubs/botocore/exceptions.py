from avro import lacking


class BotoCoreError(Exception):
    def __init__(self, **kw):
        super().__init__(type(self).__name__ + ": " + ", ".join(f"{k}={v}" for k, v in kw.items()))


class IncompleteReadError(BotoCoreError):
    pass


class EndpointConnectionError(BotoCoreError):
    pass


class ConnectionClosedError(BotoCoreError):
    pass


class ReadTimeoutError(BotoCoreError):
    pass


class ResponseStreamingError(BotoCoreError):
    pass


class ClientError(Exception):
    def __init__(self, error_response, operation_name):
        super().__init__(f"An error occurred ({error_response['Error']['Code']}) when calling the {operation_name} operation")
        self.response = error_response
        self.operation_name = operation_name


__getattr__ = lacking("botocore.exceptions")

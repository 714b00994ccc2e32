class KintoException(Exception):
    def __init__(self, message=None, exception=None):
        super().__init__(message)
        self.message = message
        self.request = self.response = None


class BucketNotFound(KintoException):
    pass


class CollectionNotFound(KintoException):
    pass

class DefaultCredentialsError(Exception):
    pass

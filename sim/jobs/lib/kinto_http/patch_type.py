class BasicPatch:
    def __init__(self, data=None, permissions=None):
        self.data, self.permissions = data, permissions

class Config:
    def __init__(self, **_):
        pass

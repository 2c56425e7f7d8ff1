class Aer:
    @staticmethod
    def get_backend(*a, **k):
        raise NotImplementedError

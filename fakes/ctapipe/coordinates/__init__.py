class CameraFrame:
    pass


class EngineeringCameraFrame:
    """Frame of the camera seen from the front; the rotation with respect to
    the CameraFrame depends on the number of mirrors"""
    def __init__(self, n_mirrors=1):
        self.n_mirrors = n_mirrors

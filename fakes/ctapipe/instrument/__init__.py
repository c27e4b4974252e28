import numpy as np
from ctapipe.coordinates import CameraFrame, EngineeringCameraFrame


class CameraGeometry:
    def __init__(self, camera_name, pix_id, pix_x, pix_y, pix_area, pix_type,
                 sampling_rate=None, frame=None):
        self.camera_name = camera_name
        self.pix_id = np.asarray(pix_id)
        self.pix_x = pix_x
        self.pix_y = pix_y
        self.pix_type = pix_type
        self.sampling_rate = sampling_rate
        self.frame = frame if frame is not None else CameraFrame()
        if len(self.pix_id) != len(pix_x) or len(pix_x) != len(pix_y):
            raise ValueError('inconsistent number of pixels')

    @property
    def neighbor_matrix(self):
        x, y = self.pix_x.value, self.pix_y.value
        d = np.hypot(x[1:] - x[0], y[1:] - y[0]).min()
        dx = np.abs(x[:, None] - x[None])
        dy = np.abs(y[:, None] - y[None])
        return ((dx + dy) < 1.5 * d) & ~np.eye(len(x), dtype=bool)

    @property
    def neighbor_matrix_where(self):
        return np.ascontiguousarray(np.array(np.where(self.neighbor_matrix)).T)

    def transform_to(self, frame):
        if not isinstance(frame, EngineeringCameraFrame):
            raise TypeError('unknown frame')
        if isinstance(self.frame, EngineeringCameraFrame):
            x, y = self.pix_x, self.pix_y
        elif frame.n_mirrors == 2:
            x, y = self.pix_y, -1 * self.pix_x
        else:
            x, y = -1 * self.pix_y, -1 * self.pix_x
        return CameraGeometry(
            self.camera_name, self.pix_id, x, y, None, self.pix_type,
            self.sampling_rate, frame)

class EarlyStopping:
    def __init__(self, monitor="early_stop_on", min_delta=0.0, patience=3, verbose=False, mode="min"):
        self.monitor, self.min_delta, self.patience, self.mode = monitor, min_delta, patience, mode


class LearningRateMonitor:
    def __init__(self, logging_interval=None, log_momentum=False):
        self.logging_interval, self.log_momentum = logging_interval, log_momentum

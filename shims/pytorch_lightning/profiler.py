class AdvancedProfiler:
    def __init__(self, output_filename=None, line_count_restriction=1.0):
        self.output_filename = output_filename

"""sx: a small symbolic executor for the Python sources of scrappybara."""
